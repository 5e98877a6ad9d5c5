"""Runs many simulations of one property, minimises and reports violations, writes evidence."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OA_REPO", "/repo")

from . import core
from .core import HarnessError, Known, Sim, Violation

_monotonic = time.monotonic
_exit = os._exit
_fork = os.fork
_waitpid = os.waitpid
_kill = os.kill

RUN_WALL = 240.0
RUN_CPU = 30


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return VERIF


def seed_for(prop, base, i):
    h = hashlib.sha256(("%s/%s/%s" % (prop, base, i)).encode()).digest()
    return int.from_bytes(h[:7], "big")


def load_known(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                fields = line[len("known: "):].split(None, 2)
                if fields[0] == "property=" + prop and fields[1].startswith("id="):
                    out[fields[1][3:]] = fields[2]
    return out


def run_one(mod, prop, scratch, seed, choices=None, known=(), tier="quick"):
    """One simulation in a forked, throw-away process -> result dict."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = _fork()
    if pid == 0:
        os.setpgid(0, 0)
        try:
            os.close(r)
            sim = Sim(seed, choices)
            sim.scratch = scratch
            sim.tier = tier
            sim.known_ids = known
            for n in os.listdir(scratch):
                shutil.rmtree(os.path.join(scratch, n), ignore_errors=True)
            res = {"status": "ok"}
            try:
                info = mod.run(sim) or {}
                res["info"] = info
                if sim.broken:
                    res = {"status": "harness", "detail": sim.broken}
            except Violation as v:
                res = {"status": "violation", "kind": str(v.kind), "detail": str(v.detail)}
                if sim.broken:
                    res = {"status": "harness", "detail": sim.broken}
            except HarnessError as e:
                res = {"status": "harness", "detail": "%s\n%s" % (e, traceback.format_exc())}
            except BaseException:
                res = {"status": "harness", "detail": traceback.format_exc()}
            res.update(choices=sim.choices, stats=dict(sim.stats), faults=dict(sim.faults),
                       probes=dict(sim.probes), hash=sim.trace_hash.hexdigest(),
                       steps=sim.steps, sim_time=sim.sim_time_total, known=sim.known,
                       events=sim.events[:1500] if res["status"] != "ok" else None)
            data = pickle.dumps(res, 4)
            with os.fdopen(w, "wb", closefd=False) as f:
                f.write(data)
            os.close(w)
        except BaseException:
            try:
                os.write(2, traceback.format_exc().encode("utf8", "replace"))
            except BaseException:
                pass
        _exit(0)
    os.close(w)
    chunks = []
    end = _monotonic() + RUN_WALL
    timed_out = False
    while True:
        left = end - _monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, dummy, dummy = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    dummy, status = _waitpid(pid, 0)
    if timed_out:
        return {"status": "harness", "detail": "wall timeout after %s s (seed %s)" % (RUN_WALL, seed)}
    try:
        return pickle.loads(b"".join(chunks))
    except Exception as e:
        return {"status": "harness", "detail": "run died (status %s, %d bytes): %s" % (
            status, sum(map(len, chunks)), e)}


def worker(k, nworkers, mod, prop, base, runs, deadline, tier, known, scratch, conn_w, stop_r):
    """Runs seeds k, k+n, ...; streams results to the parent as pickles."""
    agg = new_agg()
    found = None
    i = k
    while i < runs:
        if _monotonic() > deadline:
            break
        if select.select([stop_r], [], [], 0)[0]:
            break
        seed = seed_for(prop, base, i)
        res = run_one(mod, prop, scratch, seed, None, known, tier)
        add(agg, res, i, seed)
        if res["status"] == "violation":
            found = (i, seed, res)
            break
        if res["status"] == "harness":
            if len(agg["harness"]) > 3:
                break
        i += nworkers
    out = {"agg": agg, "violation": found, "k": k}
    if found:
        send(conn_w, {"found": True, "k": k})
        i, seed, res = found
        kind = res["kind"]

        def fails(c):
            rr = run_one(mod, prop, scratch, seed, c, known, tier)
            return rr["status"] == "violation" and rr["kind"] == kind
        tries = 0
        best = res["choices"]
        budget = 40.0 if tier == "quick" else 120.0
        if kind != "hang" and fails(best):
            best, tries = core.minimise(fails, best, budget)
            final = run_one(mod, prop, scratch, seed, best, known, tier)
            if final["status"] == "violation":
                res = final
        out["min"] = {"index": i, "seed": seed, "choices": best, "kind": res["kind"],
                      "detail": res["detail"], "events": res.get("events") or [],
                      "hash": res["hash"], "tries": tries,
                      "original_decisions": len(found[2]["choices"])}
    send(conn_w, {"done": True, "out": out})


def send(fd, obj):
    data = pickle.dumps(obj, 4)
    data = len(data).to_bytes(8, "big") + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def new_agg():
    return {"runs": 0, "ok": 0, "harness": [], "stats": collections.Counter(),
            "faults": collections.Counter(), "fault_runs": collections.Counter(),
            "probes": collections.Counter(), "hashes": set(), "nontrivial": set(),
            "steps": 0, "sim_time": 0.0, "decisions": 0, "samples": [], "known": collections.Counter(),
            "byindex": {}}


def add(agg, res, i, seed):
    agg["runs"] += 1
    if res["status"] == "harness":
        agg["harness"].append("run %d seed %d: %s" % (i, seed, res["detail"]))
        return
    agg["ok"] += res["status"] == "ok"
    agg["stats"].update(res["stats"])
    agg["faults"].update(res["faults"])
    for f in res["faults"]:
        agg["fault_runs"][f] += 1
    agg["probes"].update(res["probes"])
    agg["hashes"].add(res["hash"])
    agg["byindex"][i] = res["hash"]
    agg["steps"] += res["steps"]
    agg["sim_time"] += res["sim_time"]
    agg["decisions"] += len(res["choices"])
    agg["known"].update(res["known"])
    info = res.get("info") or {}
    if info.get("nontrivial", True):
        agg["nontrivial"].add(res["hash"])
    if info.get("sample") and len(agg["samples"]) < 3:
        agg["samples"].append({"seed": seed, "run": i, "case": info["sample"]})


def merge(a, b):
    for key in ("runs", "ok", "steps", "sim_time", "decisions"):
        a[key] += b[key]
    a["harness"] += b["harness"]
    for key in ("stats", "faults", "fault_runs", "probes", "known"):
        a[key].update(b[key])
    a["hashes"] |= b["hashes"]
    a["nontrivial"] |= b["nontrivial"]
    a["samples"] += b["samples"]
    a["byindex"].update(b["byindex"])


def prepare():
    """Imports the code under test from the working tree, with nothing cached on disk."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    os.environ["TZ"] = "UTC"
    time.tzset()
    import random
    random.seed(12345)
    import oa
    if not os.path.abspath(oa.__file__).startswith(os.path.abspath(REPO) + "/"):
        raise HarnessError("oa imported from %s" % oa.__file__)


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--replay")
    p.add_argument("--runs", type=int)
    p.add_argument("--seconds", type=float)
    p.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--one", type=int, help="run this index only, verbosely")
    p.add_argument("--hashes", help="write index -> trace hash here (determinism proof)")
    p.add_argument("--survey", action="store_true", help="development: go on after violations")
    p.add_argument("--events", action="store_true")
    p.add_argument("--no-evidence", action="store_true")
    args = p.parse_args(argv)
    prop = args.prop.upper()
    t0 = _monotonic()
    prepare()
    mod = load(prop)
    if hasattr(mod, "setup"):
        mod.setup()
    known = load_known(prop)
    scratch = os.path.join(scratch_base(), "oasim-%d" % os.getpid())
    os.makedirs(scratch)
    try:
        if args.replay:
            return replay(mod, prop, args, scratch, known)
        if args.survey:
            return survey(mod, prop, args, scratch, known)
        if args.one is not None:
            seed = seed_for(prop, args.seed, args.one)
            d = os.path.join(scratch, "w")
            os.makedirs(d)
            res = run_one(mod, prop, d, seed, None, known, args.tier)
            print(json.dumps({k: res.get(k) for k in (
                "status", "kind", "detail", "info", "stats", "faults", "probes", "hash", "steps")},
                indent=1, default=str))
            for e in (res.get("events") or [])[:2000 if args.events else 0]:
                print("  ", e)
            return 0 if res["status"] == "ok" else 1
        return search(mod, prop, args, scratch, known, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def survey(mod, prop, args, scratch, known):
    """Every run of the given number, violations grouped."""
    n = args.workers
    pids = []
    out = os.path.join(scratch, "survey")
    runs = args.runs or 100
    for k in range(n):
        pid = _fork()
        if pid == 0:
            d = os.path.join(scratch, "w%d" % k)
            os.makedirs(d)
            rows = []
            for i in range(k, runs, n):
                res = run_one(mod, prop, d, seed_for(prop, args.seed, i), None, known, args.tier)
                rows.append((i, res["status"], res.get("kind"), res.get("detail"), res.get("probes")))
            with open(out + str(k), "wb") as f:
                pickle.dump(rows, f)
            _exit(0)
        pids.append(pid)
    for pid in pids:
        _waitpid(pid, 0)
    groups = collections.OrderedDict()
    probes = collections.Counter()
    total = collections.Counter()
    for k in range(n):
        for i, status, kind, detail, pr in pickle.load(open(out + str(k), "rb")):
            total[status] += 1
            probes.update(pr or {})
            if status != "ok":
                key = (status, kind, str(detail)[:60 if status == "violation" else 0])
                groups.setdefault(key, []).append((i, detail))
    print(dict(total))
    for key, rows in sorted(groups.items(), key=lambda x: -len(x[1])):
        rows.sort()
        print("---- %d x %s %s: runs %s\n%s" % (len(rows), key[0], key[1], [r[0] for r in rows[:12]],
                                              str(rows[0][1])[-1500:] if key[0] == "harness" else str(rows[0][1])[:1800]))
    if args.events:
        for k, v in sorted(probes.items()):
            print("   probe %-40s %d" % (k, v))
        print("   never:", sorted(set(getattr(mod, "PROBES", ())) - set(probes)))
    return 0


def replay(mod, prop, args, scratch, known):
    with open(args.replay) as f:
        rep = json.load(f)
    d = os.path.join(scratch, "w")
    os.makedirs(d)
    res = run_one(mod, prop, d, rep["seed"], rep["choices"], known, rep.get("tier", "quick"))
    if res["status"] == "violation":
        print("reproduced: %s: %s" % (res["kind"], res["detail"]))
        for e in res["events"][:2000]:
            print("   ", e)
        print("same trace: %s" % (res["hash"] == rep["hash"]))
        if res["kind"] == rep["kind"]:
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
    print("not reproduced: %s %s" % (res["status"], res.get("detail", "")))
    return 0 if res["status"] == "ok" else 2


def search(mod, prop, args, scratch, known, t0):
    tier = args.tier
    runs = args.runs or (mod.THOROUGH_RUNS if tier == "thorough" else mod.QUICK_RUNS)
    seconds = args.seconds or (780.0 if tier == "thorough" else 300.0)
    deadline = t0 + seconds
    n = max(1, args.workers)
    stop_r, stop_w = os.pipe()
    conns = {}
    pids = []
    for k in range(n):
        r, w = os.pipe()
        d = os.path.join(scratch, "w%d" % k)
        os.makedirs(d)
        pid = _fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(k, n, mod, prop, args.seed, runs, deadline, tier, known, d, w, stop_r)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            _exit(code)
        os.close(w)
        conns[r] = bytearray()
        pids.append(pid)
    agg = new_agg()
    viols = []
    died = 0
    stopped = False
    while conns:
        ready, dummy, dummy = select.select(list(conns), [], [])
        for fd in ready:
            b = os.read(fd, 1 << 16)
            if not b:
                del conns[fd]
                os.close(fd)
                continue
            buf = conns[fd]
            buf.extend(b)
            while len(buf) >= 8:
                size = int.from_bytes(buf[:8], "big")
                if len(buf) < 8 + size:
                    break
                obj = pickle.loads(bytes(buf[8:8 + size]))
                del buf[:8 + size]
                if obj.get("found") and not stopped:
                    os.write(stop_w, b"x" * 64)
                    stopped = True
                if obj.get("done"):
                    merge(agg, obj["out"]["agg"])
                    if obj["out"].get("min"):
                        viols.append(obj["out"]["min"])
    for pid in pids:
        dummy, status = _waitpid(pid, 0)
        if status:
            died += 1
    # re-run some seeds in this process: the trace must be the same
    mismatches = []
    rechecked = 0
    if not viols and agg["byindex"]:
        d = os.path.join(scratch, "re")
        os.makedirs(d)
        idx = sorted(agg["byindex"])
        for i in idx[::max(1, len(idx) // 6)][:6]:
            if _monotonic() > deadline + 20:
                break
            res = run_one(mod, prop, d, seed_for(prop, args.seed, i), None, known, tier)
            rechecked += 1
            if res.get("hash") != agg["byindex"][i]:
                mismatches.append(i)
    wall = _monotonic() - t0
    if args.hashes:
        with open(args.hashes, "w") as f:
            json.dump({str(k): v for k, v in sorted(agg["byindex"].items())}, f)
    if not args.no_evidence:
        write_evidence(mod, prop, args, agg, viols, wall, rechecked, mismatches, known, runs)
    print("%s %s: %d runs (%d distinct traces, %d non-trivial), %d decisions, %.0f s simulated, "
          "%.1f s wall, %d workers" % (prop, tier, agg["runs"], len(agg["hashes"]),
                                       len(agg["nontrivial"]), agg["decisions"], agg["sim_time"],
                                       wall, n))
    for kind, text in known.items():
        print("KNOWN-FINDING: property=%s %s (id %s, met in %d runs)" % (
            prop, text, kind, agg["known"].get(kind, 0)))
    if mismatches:
        print("warning: traces differ on re-run of %s" % mismatches, file=sys.stderr)
    confirmed = 0
    if viols:
        viols.sort(key=lambda v: (v["kind"] == "hang", v["index"]))
        v = viols[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, args.seed, v["index"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": v["seed"], "tier": tier, "choices": v["choices"],
                       "kind": v["kind"], "detail": v["detail"], "hash": v["hash"],
                       "original_decisions": v["original_decisions"],
                       "minimisation_runs": v["tries"],
                       "trace": [list(map(str, e)) for e in v["events"][:600]]}, f, indent=1)
        print("violated: %s: %s" % (v["kind"], v["detail"]))
        print("  run %d, seed %d, %d decisions (from %d)" % (
            v["index"], v["seed"], len(v["choices"]), v["original_decisions"]))
        for e in v["events"][-25:]:
            print("   ", e)
        # confirm in a fresh interpreter
        import subprocess
        sys.stdout.flush()
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop, "--replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("replay in a fresh process did not reproduce it:\n%s" %
              p.stdout.decode("utf8", "replace")[-3000:])
        return 2
    if agg["harness"] or died:
        for h in agg["harness"][:5]:
            print("HARNESS ERROR: %s" % h, file=sys.stderr)
        if died:
            print("HARNESS ERROR: %d workers died" % died, file=sys.stderr)
        return 2
    if agg["runs"] == 0:
        print("HARNESS ERROR: nothing ran", file=sys.stderr)
        return 2
    return 0


def write_evidence(mod, prop, args, agg, viols, wall, rechecked, mismatches, known, runs):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    hours = max(wall, 1e-6) / 3600.0
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": mod.RULE,
        "samples": agg["samples"][:5] or [{"none": True}],
        "runs_planned": runs,
        "runs_per_hour": round(agg["runs"] / hours),
        "seeds": "sha256(%s/%d/i), i < %d" % (prop, args.seed, agg["runs"]),
        "distinct_traces": len(agg["hashes"]),
        "distinct_measure": "SHA-1 of the full event log (scheduling, I/O, faults, times)",
        "decisions": agg["decisions"],
        "simulated_seconds": round(agg["sim_time"], 3),
        "simulator_steps": agg["steps"],
        "faults_fired": dict(sorted(agg["faults"].items())),
        "runs_with_fault": dict(sorted(agg["fault_runs"].items())),
        "events": dict(sorted(agg["stats"].items())),
        "probes_hit": dict(sorted(agg["probes"].items())),
        "probes_never_hit": sorted(set(getattr(mod, "PROBES", ())) - set(agg["probes"])),
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "determinism_rechecks": rechecked,
        "determinism_mismatches": mismatches,
        "known_findings": {k: agg["known"].get(k, 0) for k in known},
        "harness_errors": len(agg["harness"]),
        "workers": args.workers,
    }
    ev = {"property": prop, "tier": "thorough" if args.tier == "thorough" else "quick",
          "seed": args.seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(viols)}
    path = os.path.join(d, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    os.rename(path + ".tmp", path)
