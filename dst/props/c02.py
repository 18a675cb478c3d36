"""C02: the file under a checkpoint path is always one complete checkpoint, whatever happens."""

import os
import shutil
import sys
import threading

import common as C
import disk
import harness
import models as M
import sim
from register import linearizable

ID = "C02"
LEVEL = "exploration"
QUICK = 420
KITS = (("dynamic", "direct"), ("dynamic", "schur"), ("wave", "direct"), ("temperature", "schur"))
RULE = ("one case = 1-3 simulated callers (threads, or processes with ids of their own) saving and "
        "loading states of one simulation under a seeded interleaving, with disk errors, short "
        "writes, interrupts, plus crash images taken at seeded points (process crash, torn write, "
        "power loss) and a restart on each image; non-trivial when a save was attempted; distinct "
        "by the interleaving taken, faults fired and crash points examined")
MEASURE = "hash of (interleaving, fired faults, crash point and mode, version found)"
REAL = C.REAL + ["file system calls of saving and loading (libc interposed)"]
STUB = C.STUB_BASE + ["durability of the disk (model: ordered metadata, data lost unless synced)",
                      "process and thread identity in process mode"]
PROBES = ("crash-process", "crash-power", "crash-torn", "crash-kept-old", "crash-kept-new",
          "save-failed", "save-interrupted", "retry-after-fault", "restart-save", "overlap",
          "read-during-write")
SHRINK_LISTS = ("prog.0", "prog.1", "prog.2", "plan", "disk", "interrupts", "crashes")


def gen(rng):
    kind = str(rng.choice(["dynamic", "wave", "temperature"], p=[0.6, 0.25, 0.15]))
    spec = M.gen_spec(rng, [kind], methods=["direct", "schur"], min_steps=3, max_steps=4,
                      products=True)
    n_thr = int(rng.choice([1, 2, 3], p=[0.4, 0.35, 0.25]))
    n_paths = 1 if rng.random() < 0.7 else 2
    prog = []
    for _ in range(n_thr):
        ops = []
        for _ in range(int(rng.integers(1, 5 if n_thr == 1 else 4))):
            ops.append(["save" if rng.random() < 0.7 else "load", int(rng.integers(n_paths)),
                        int(rng.integers(spec["n"]))])
        prog.append(ops)
    if not any(o[0] == "save" for p in prog for o in p):
        prog[0].append(["save", 0, 0])
    faults = []
    if rng.random() < 0.6:
        for _ in range(int(rng.integers(1, 4))):
            op = str(rng.choice(["write", "write", "open", "fsync", "rename", "close", "read",
                                 "unlink", "any"]))
            nth = int(rng.integers(0, 6))
            r = rng.random()
            if op in ("write", "read") and r < 0.35:
                faults.append([op, nth, "short", int(rng.integers(1, 60000))])
            else:
                err = str(rng.choice(["ENOSPC", "EIO", "EDQUOT", "EROFS", "EMFILE", "EINTR"]))
                faults.append([op, nth, "sticky" if r > 0.75 and err != "EINTR" else "errno", err])
    inter = []
    if rng.random() < 0.4:
        for _ in range(int(rng.integers(1, 3))):
            inter.append([int(rng.integers(n_thr)), round(float(rng.random()), 6),
                          round(float(rng.random()), 6),
                          str(rng.choice(["interrupt", "memory"]))])
    crashes = [[round(float(rng.random()), 6), str(rng.choice(["process", "power"])),
                int(rng.integers(0, 5000)) if rng.random() < 0.4 else 0, int(rng.integers(1 << 30))]
               for _ in range(5)]
    return {"spec": spec, "prog": prog, "processes": bool(rng.random() < 0.4),
            "plan": sim.draw_plan(rng, n_thr, int(rng.integers(0, 10))) if n_thr > 1 else [],
            "disk": faults, "interrupts": inter, "crashes": crashes,
            "old": bool(rng.random() < 0.5)}


PATHS = ("ckpt", "other.state")
OLD = -1  # version present before the run starts (previous process)


class Identity:
    """Each simulated caller is a process of its own: distinct pid, equal main-thread ident."""

    def __enter__(self):
        self.pid, self.ident = os.getpid, threading.get_ident

        def mine():
            f = sys._getframe(2)
            return f.f_code.co_filename.startswith(sim.CODE_PREFIX) and sim._CURRENT is not None

        def getpid():
            return 40000 + sim._CURRENT.current.tid if mine() else self.pid()

        def get_ident():
            return 140000000000000 if mine() else self.ident()

        os.getpid, threading.get_ident = getpid, get_ident
        return self

    def __exit__(self, *_):
        os.getpid, threading.get_ident = self.pid, self.ident
        return False


def which(snap, versions):
    for v, s in versions.items():
        if M.diff(snap, s, rtol=0.0, atol=0.0) is None:
            return v
    return "unknown"


def read_version(path, versions):
    """Version number, None when there is no file, ('bad', why) when it is not a checkpoint."""
    try:
        s = M.ps.State.load(path)
        snap = M.snap(s)
    except FileNotFoundError:
        return None
    except Exception as e:  # noqa: whatever a partial pickle raises
        return ("bad", f"{type(e).__name__}: {e}"[:120])
    v = which(snap, versions)
    return ("bad", "content of no saved state") if v == "unknown" else v


def execute(sc, states, versions, root, record, plan=(), interrupts=()):
    """Run the program once; returns history, log, fired faults, interleaving."""
    hist = []
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    with disk.Disk(root) as d:
        d.plan([] if record else sc["disk"])
        sch = sim.Scheduler(plan, record=record, interrupts=interrupts)

        def caller(tid, ops):
            def body():
                for op, p, v in ops:
                    v %= len(states)  # a minimised run may have fewer steps
                    path = os.path.join(root, PATHS[p])
                    h = {"kind": "w" if op == "save" else "r", "path": p, "val": v, "tid": tid,
                         "inv": tick(), "res": None, "must": False, "err": None,
                         "mut_inv": d.mark(), "mut_res": None, "fired": len(d.fired())}
                    hist.append(h)
                    n_int = len(sch.fired)
                    try:
                        if op == "save":
                            states[v].save(path)
                        else:
                            h["val"] = None
                            try:
                                s = M.ps.State.load(path)
                            except FileNotFoundError:
                                s = None
                            h["val"] = which(M.snap(s), versions) if s is not None else None
                        h["must"] = True
                    except BaseException as e:  # noqa
                        h["err"] = f"{type(e).__name__}: {e}"[:160]
                        h["oserror"] = isinstance(e, OSError)
                    h["interrupted"] = len(sch.fired) > n_int
                    h["res"] = tick()
                    h["mut_res"] = d.mark()
                    h["fired_end"] = len(d.fired())
            return body

        for tid, ops in enumerate(sc["prog"]):
            sch.add(caller(tid, ops))
        if sc["processes"]:
            with Identity():
                sch.run()
        else:
            sch.run()
        fired = d.fired()
        d.clear()
        return {"hist": hist, "sites": {k: list(v) for k, v in sch.sites.items()},
                "fired": fired, "log": d.log(), "trace": sch.trace_log, "events": sch.total,
                "int": sch.fired, "failure": sch.failure, "disk": d}


def marks(log):
    """byte position of the end of each record, to line log records up with marks"""
    pos, out = 0, []
    for r in log:
        pos += 48 + len(r["p"].encode()) + len(r["q"].encode()) + len(r["data"])
        out.append(pos)
    return out


def recover(image, root, target, versions, states, path_ids):
    """The restarted process: load each path, then go on saving there."""
    disk.materialise(image, root, target)
    out = {}
    for p in path_ids:
        out[p] = read_version(os.path.join(target, PATHS[p]), versions)
    again = {}
    for p in path_ids:
        v = max(versions)
        states[v].save(os.path.join(target, PATHS[p]))
        again[p] = read_version(os.path.join(target, PATHS[p]), versions) == v
    return out, again


def run(sc, ctx):
    spec = sc["spec"]
    ctx.kinds[spec["kind"]] += 1
    states = M.run(M.build(spec), spec, output_step=list(range(1, spec["n"] + 1)))
    versions = {i: M.snap(s) for i, s in enumerate(states)}
    old_state = states[0].copy()
    old_state.displacement[:] = 0.125
    versions[OLD] = M.snap(old_state)
    allst = {**dict(enumerate(states)), OLD: old_state}
    root = os.path.realpath(os.path.join(ctx.scratch, "disk"))
    path_ids = sorted({o[1] for p in sc["prog"] for o in p})

    def prepare():
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        init = {}
        if sc["old"]:
            for p in path_ids:
                f = os.path.join(root, PATHS[p])
                old_state.save(f)
                init[f] = open(f, "rb").read()
        return init

    plan, inter = [], []
    if sc["plan"] or sc["interrupts"]:
        def probe():
            prepare()
            return execute(sc, states, versions, root, True)["sites"]

        sites = harness.isolated(probe)
        plan = sim.resolve_plan(sc["plan"], sites)
        inter = [(t, sim.resolve_event(sites.get(t, []), u, v), e)
                 for t, u, v, e in sc["interrupts"]]
    init = prepare()
    first = OLD if sc["old"] else None
    r = execute(sc, states, versions, root, False, plan, inter)
    ctx.runs += 1
    ctx.events += r["events"]
    ctx.sim_time += M.simulated_time(spec)
    for f in r["fired"]:
        ctx.faults[f"{f[0]}-{f[2]}" + ("" if f[2] == "short" else f"-{f[3]}")] += 1
    ctx.faults["interrupt"] += len(r["int"])
    ctx.check(r["failure"] is None, "deadlock", "callers blocked for ever")

    hist = r["hist"]
    for h in hist:
        if h["err"] and not h["interrupted"]:
            # a disk fault may be reported; nothing else may make a save or load fail
            ctx.check(bool(r["fired"]), "unexpected-error",
                      lambda: f"{h['kind']} failed without a fault: {h['err']}")
        if h["kind"] == "r" and h["must"]:
            ctx.check(h["val"] != "unknown", "mixed-read", "a load returned a mixture")
        ctx.probes["save-failed"] += h["kind"] == "w" and bool(h["err"])
        ctx.probes["save-interrupted"] += h["kind"] == "w" and h["interrupted"]
        for g in hist:
            if g["tid"] < h["tid"] and g["path"] == h["path"] and (
                    g["inv"] < h["res"] and h["inv"] < g["res"]):
                ctx.probes["overlap"] += 1
                ctx.probes["read-during-write"] += {g["kind"], h["kind"]} == {"r", "w"}

    def legal(p, extra, writes):
        return linearizable(first, writes + extra)

    # what is there now, in the running process
    inf = 10**9
    for p in path_ids:
        val = read_version(os.path.join(root, PATHS[p]), versions)
        ops = [h for h in hist if h["path"] == p and (h["kind"] == "w" or h["must"])]
        end = {"kind": "r", "val": val, "inv": inf, "res": inf + 1, "must": True}
        ctx.check(not isinstance(val, tuple), "partial-file", lambda: f"after the run: {val}")
        if not isinstance(val, tuple):
            ctx.check(legal(p, [end], ops), "not-atomic",
                      lambda: f"path {p}: history {brief(ops)} then read {val}")
    # crash images
    log = r["log"]
    ends = marks(log)
    muts = disk.mutations(log)
    ids = {id(m) for m in muts}
    upto = []  # mutations completed at each log position
    n = 0
    for rec in log:
        n += id(rec) in ids
        upto.append(n)

    def muts_at(mark):
        c = 0
        for e, u in zip(ends, upto):
            if e <= mark:
                c = u
        return c

    for h in hist:
        h["mi"], h["mr"] = muts_at(h["mut_inv"]), muts_at(h["mut_res"])
    import numpy as np

    for i, (u, mode, torn, seed) in enumerate(sc["crashes"]):
        k = int(u * (len(muts) + 1))
        image = disk.crash_image(init, muts, k, mode, torn, np.random.default_rng(seed))
        target = os.path.join(ctx.scratch, f"restart{i}")
        os.makedirs(target)
        found, again = harness.isolated(recover, image, root, target, versions, allst, path_ids)
        shutil.rmtree(target)
        ctx.runs += 1
        ctx.faults[f"crash-{mode}" + ("-torn" if torn else "")] += 1
        ctx.probes[f"crash-{mode}"] += 1
        ctx.probes["crash-torn"] += bool(torn)
        ctx.probes["restart-save"] += 1
        for p in path_ids:
            v = found[p]
            ctx.check(again[p], "restart-save", "saving after a restart did not take effect")
            if not ctx.check(not isinstance(v, tuple), "partial-after-crash",
                             lambda: f"{mode} crash at {k}/{len(muts)}: {v}"):
                continue
            started = [h for h in hist if h["path"] == p and h["kind"] == "w" and h["mi"] <= k]
            if mode == "power":
                ok = v == first or v is None or v in [h["val"] for h in started]
                # durable before the run began: cannot vanish altogether
                ok = ok and not (v is None and sc["old"])
                ctx.check(ok, "power-loss", lambda: f"found {v} at {k}; started {brief(started)}")
            else:
                ops = []
                for h in started:
                    complete = h["must"] and h["mr"] <= k
                    ops.append(dict(h, must=complete, res=h["res"] if h["mr"] <= k else None))
                end = {"kind": "r", "val": v, "inv": inf, "res": inf + 1, "must": True}
                ctx.check(legal(p, [end], ops), "lost-checkpoint",
                          lambda: f"process crash at {k}/{len(muts)}: {brief(ops)} found {v}")
                ctx.probes["crash-kept-old"] += v == OLD
                ctx.probes["crash-kept-new"] += v not in (OLD, None)
            ctx.reached(mode, k, v, bool(torn))
    # faults stop: progress
    for p in path_ids:
        path = os.path.join(root, PATHS[p])
        v = len(states) - 1
        try:
            states[v].save(path)
            ok = read_version(path, versions) == v
        except OSError as e:
            ok, v = False, str(e)
        ctx.check(ok, "no-progress", lambda: f"saving after the faults stopped: {v}")
        ctx.probes["retry-after-fault"] += bool(r["fired"])
    ctx.reached(r["trace"], r["fired"], r["int"],
                [(h["kind"], h["path"], h["val"], h["must"]) for h in hist])


def brief(ops):
    return [(o["kind"], o["val"], o["inv"], o["res"], "ok" if o["must"] else "failed") for o in ops]
