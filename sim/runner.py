"""Seeded search over simulated runs of one property check.

  runner.py CXX --tier quick|thorough      search; exit 0 / 1 (+VIOLATION)
  runner.py CXX --replay FILE              re-execute one recorded run
  runner.py CXX --digests N                print run digests (determinism proof)

Exit codes: 0 property held on everything explored, 1 violation, 3 harness
error (never confused with either of the other two).
"""
import argparse
import collections
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_wall = time.time

CPU_LIMIT = 20          # CPU seconds one simulated run may burn
WALL_LIMIT = 300        # real seconds before a run is a harness error
MEM_LIMIT = 3 << 30


class HarnessError(Exception):
    pass


def load(prop):
    for p in (VERIF, REPO, REPO + "/usenet", REPO + "/bin"):
        if p not in sys.path:
            sys.path.append(p) if p.endswith("bin") else sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    mod = importlib.import_module("checks." + prop.lower())
    gc.collect()
    gc.freeze()
    return mod


# ---------------------------------------------------------------------------
# one run in a forked child

def escaped(e):
    """an exception that left mod.run()"""
    from sim import core, common
    tb = traceback.extract_tb(e.__traceback__)
    inside = tb and tb[-1].filename.startswith(common.REPO + "/")
    if isinstance(e, core.Broken) or inside:
        # the check called the real code directly or could not prepare the
        # run because the real code failed without any fault
        cls = "cannot-prepare" if isinstance(e, core.Broken) else \
            "unexpected-exception"
        return {"violations": [{
            "class": cls, "sig": cls,
            "msg": (str(e) if isinstance(e, core.Broken) else
                    traceback.format_exc()[-1500:])}],
            "digest": cls, "fired": [], "points": []}
    return {"harness": traceback.format_exc()}


def _child(mod, scn, wfd, want_trace):
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGINT, signal.default_int_handler)
        nul = os.open("/dev/null", os.O_RDWR)
        for fd in (0, 1):
            os.dup2(nul, fd)
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
        try:
            res = mod.run(scn)
            if not want_trace:
                res.pop("trace", None)
        except BaseException as e:
            res = escaped(e)
        data = json.dumps(res, default=repr).encode("utf-8", "replace")
        os.set_blocking(wfd, True)
        mv = memoryview(struct.pack("<Q", len(data)) + data)
        while mv:
            mv = mv[_os_write(wfd, mv):]
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(0)


_os_write = os.write
_os_read = os.read


def execute(mod, scn, want_trace=False):
    """run one scenario in a fresh process image; -> result dict"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(mod, scn, w, want_trace)
    os.close(w)
    buf = b""
    deadline = _wall() + WALL_LIMIT
    timeout = False
    while True:
        left = deadline - _wall()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            timeout = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = _os_read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timeout:
        return {"harness": "run exceeded %d s of wall time" % WALL_LIMIT}
    if len(buf) >= 8 and len(buf) - 8 == struct.unpack("<Q", buf[:8])[0]:
        return json.loads(buf[8:].decode("utf-8"))
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
    if sig in (signal.SIGXCPU,):
        return {"violations": [{
            "class": "no-termination",
            "msg": "the operation was still running after %d CPU seconds"
                   % CPU_LIMIT, "sig": "no-termination"}],
            "digest": "hang", "fired": [], "points": [], "hang": True}
    return {"harness": "child died: status %r" % (status,)}


# ---------------------------------------------------------------------------
# fault planning

def default_faults(mod, rng, scn, points):
    """choose a fault list from the fault points the fault-free run passed"""
    from sim.core import APPLIES, NETKINDS
    kinds = getattr(mod, "KINDS", ("EIO", "ENOSPC", "EACCES", "EBUSY",
                                   "EMFILE", "SHORT"))
    bysite = collections.OrderedDict()
    for op, n, site in points:
        ks = [k for k in APPLIES.get(site, ()) if k in kinds]
        if ks:
            bysite.setdefault(site, []).append((op, n, ks))
    if not bysite:
        return []
    count = rng.choice([1, 1, 1, 1, 1, 2, 2, 3])
    if getattr(mod, "MAXFAULTS", 3) < count:
        count = mod.MAXFAULTS
    res = []
    weights = getattr(mod, "SITE_WEIGHTS", {})
    sites = list(bysite)
    for _ in range(count):
        site = rng.choices(sites, [weights.get(s, 2 if s in (
            "write", "rename", "unlink", "creat") else 1) for s in sites])[0]
        pts = bysite[site]
        # half of the time near the end of an operation, where state moves
        if rng.random() < 0.3:
            op, n, ks = pts[-1 - rng.randrange(min(4, len(pts)))]
        else:
            op, n, ks = rng.choice(pts)
        k = rng.choice(ks)
        f = {"op": op, "n": n, "kind": k}
        if k in ("SHORT", "TORN", "ENOSPC"):
            f["arg"] = rng.choice([0, 0.25, 0.5, 0.9])
        if k in ("CUT", "FLIP"):
            f["arg"] = round(rng.random(), 3)
        if k in ("ENOSPC", "EACCES", "EIO", "EMFILE") and rng.random() < 0.5:
            f["sticky"] = True
        if k in NETKINDS and rng.random() < 0.25:
            f["sticky"] = True
        res.append(f)
    return res


# ---------------------------------------------------------------------------
# search

def work(mod, prop, seed, tier, index, nvar, cap, agg):
    """all runs of one seed index"""
    rng = random.Random("%s/%s/%s" % (seed, prop, index))
    scn = mod.plan(rng, tier)
    scn.setdefault("faults", [])
    base = execute(mod, scn)
    agg_add(agg, mod, index, 0, scn, base)
    if "harness" in base:
        return
    pts = base.get("points") or []
    for v in range(nvar):
        if _wall() > cap:
            agg["capped"] = True
            return
        if hasattr(mod, "vary"):
            s2 = mod.vary(rng, scn, base)
            if s2 is None:
                break
        else:
            fl = default_faults(mod, rng, scn, pts)
            if not fl:
                break
            s2 = dict(scn, faults=fl)
        res = execute(mod, s2)
        agg_add(agg, mod, index, v + 1, s2, res)


def agg_add(agg, mod, index, var, scn, res):
    agg["runs"] += 1
    if "harness" in res:
        agg["harness"].append([index, var, res["harness"], scn])
        return
    agg["digests"].append([index, var, res.get("digest", ""),
                           res.get("state", ""), 1 if res.get("nontrivial",
                                                              True) else 0])
    for k in res.get("fired", ()):
        agg["fired"][k] = agg["fired"].get(k, 0) + 1
    for k, n in (res.get("probes") or {}).items():
        agg["probes"][k] = agg["probes"].get(k, 0) + n
    agg["simtime"] += res.get("simtime", 0)
    agg["steps"] += res.get("steps", 0)
    if scn.get("faults") and not res.get("fired"):
        agg["idle"] += 1
    for v in res.get("violations", ()):
        agg["violations"].append([index, var, v, scn])
    if len(agg["samples"]) < 2 and (scn.get("faults") or index == 0):
        agg["samples"].append({"index": index, "scenario": scn,
                               "outcome": res.get("outcome"),
                               "fired": res.get("fired")})


def new_agg():
    return {"runs": 0, "harness": [], "digests": [], "fired": {}, "probes": {},
            "simtime": 0.0, "steps": 0, "violations": [], "samples": [],
            "idle": 0, "capped": False}


def search(mod, prop, seed, tier, nseeds, nvar, wall, workers):
    cap = _wall() + wall
    pipes = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                agg = new_agg()
                for index in range(w, nseeds, workers):
                    if _wall() > cap:
                        agg["capped"] = True
                        break
                    work(mod, prop, seed, tier, index, nvar, cap, agg)
                    agg["last"] = index
                    if len(agg["violations"]) > 40 or len(agg["harness"]) > 5:
                        agg["capped"] = True
                        break
                data = json.dumps(agg).encode()
                mv = memoryview(data)
                while mv:
                    mv = mv[os.write(wr, mv):]
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wr)
        pipes.append((pid, r))
    total = new_agg()
    bufs = {r: b"" for _, r in pipes}
    openp = set(bufs)
    while openp:
        rl, _, _ = select.select(list(openp), [], [])
        for r in rl:
            b = os.read(r, 1 << 20)
            if b:
                bufs[r] += b
            else:
                openp.discard(r)
    for pid, r in pipes:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            raise HarnessError("worker died: %r" % st)
        a = json.loads(bufs[r])
        for k in ("runs", "simtime", "steps", "idle"):
            total[k] += a[k]
        for k in ("harness", "digests", "violations", "samples"):
            total[k] += a[k]
        for k in ("fired", "probes"):
            for x, n in a[k].items():
                total[k][x] = total[k].get(x, 0) + n
        total["capped"] |= a["capped"]
    for k in ("harness", "digests", "violations"):
        total[k].sort(key=lambda t: (t[0], t[1]))
    total["samples"].sort(key=lambda t: t["index"])
    return total


# ---------------------------------------------------------------------------
# minimisation

def size(scn):
    return len(json.dumps(scn))


def candidates(mod, scn):
    fl = scn.get("faults") or []
    for i in range(len(fl)):
        yield dict(scn, faults=fl[:i] + fl[i + 1:])
    for i, f in enumerate(fl):
        if f.get("sticky"):
            g = dict(f)
            g.pop("sticky")
            yield dict(scn, faults=fl[:i] + [g] + fl[i + 1:])
    ops = scn.get("ops") or []
    if getattr(mod, "SHRINK_OPS", True):
        for i in range(len(ops) - 1, -1, -1):
            nf = []
            for f in fl:
                if f.get("op") == i:
                    continue
                g = dict(f)
                if g.get("op", -1) > i:
                    g["op"] -= 1
                nf.append(g)
            yield dict(scn, ops=ops[:i] + ops[i + 1:], faults=nf)
    kn = scn.get("knobs") or {}
    for k in list(kn):
        k2 = dict(kn)
        del k2[k]
        yield dict(scn, knobs=k2)
    if hasattr(mod, "shrink"):
        for c in mod.shrink(scn):
            yield c


def minimise(mod, scn, cls, known, budget=60):
    end = _wall() + budget
    best = scn
    tried = 0
    progress = True
    while progress and _wall() < end:
        progress = False
        for c in candidates(mod, best):
            if _wall() > end:
                break
            if c == best:
                continue
            tried += 1
            try:
                res = execute(mod, c)
            except Exception:
                continue
            if any(v["class"] == cls and not is_known(known, v)
                   for v in res.get("violations", ())):
                best = c
                progress = True
                break
    return best, tried


# ---------------------------------------------------------------------------
# known findings

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == prop]


def is_known(known, v):
    return any(e["sig"] == v.get("sig") for e in known)


# ---------------------------------------------------------------------------

def write_replay(prop, scn, v, res, seed, index, var):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "class": v["class"], "sig": v.get("sig"),
            "msg": v["msg"], "seed": seed, "index": index, "variant": var,
            "scenario": scn, "digest": res.get("digest"),
            "trace": res.get("trace")}
    h = hashlib.sha1(json.dumps(body["scenario"], sort_keys=True).encode()
                     + v["class"].encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, v["class"][:40].replace(
        "/", "_").replace(" ", "_"), h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(mod, prop, path):
    with open(path) as f:
        body = json.load(f)
    res = execute(mod, body["scenario"], True)
    if "harness" in res:
        print("HARNESS-ERROR %s" % res["harness"])
        return 3
    same = [v for v in res["violations"] if v["class"] == body["class"]]
    exact = res.get("digest") == body.get("digest")
    if same:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  class: %s\n  %s\n  event log identical: %s" % (
            same[0]["class"], same[0]["msg"], exact))
        for line in res.get("trace") or []:
            print("    " + line)
        return 1
    print("replay of %s: no violation (classes seen: %s)" % (
        path, [v["class"] for v in res["violations"]]))
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--digests", type=int)
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--variants", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    t0 = _wall()
    mod = load(prop)
    if a.replay:
        return replay(mod, prop, a.replay)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    q = mod.BUDGET[tier]          # (seeds, variants, wall seconds)
    nseeds, nvar, wall = q
    nseeds = a.seeds or a.digests or nseeds
    nvar = a.variants if a.variants is not None else nvar
    wall = a.wall or wall
    seed = int(a.seed)
    print("property %s tier %s seed %d: %d scenarios x (1+%d) runs" % (
        prop, tier, seed, nseeds, nvar), flush=True)
    tot = search(mod, prop, seed, tier, nseeds, nvar, wall, a.workers)
    if a.digests:
        h = hashlib.sha256()
        for d in tot["digests"]:
            h.update(json.dumps(d).encode())
            print("DIGEST %d.%d %s %s" % (d[0], d[1], d[2], d[3]))
        print("TOTAL %s runs=%d" % (h.hexdigest(), tot["runs"]))
        return 3 if tot["harness"] else 0
    known = known_findings(prop)
    fresh = [x for x in tot["violations"] if not is_known(known, x[2])]
    seen_known = collections.Counter(
        x[2].get("sig") for x in tot["violations"] if is_known(known, x[2]))
    wall_s = _wall() - t0
    code = 0
    for e in known:
        print("KNOWN-FINDING: property=%s %s (sig %s; met in %d runs)" % (
            prop, e["what"], e["sig"], seen_known.get(e["sig"], 0)))
    reported = []
    if fresh:
        byclass = collections.OrderedDict()
        for x in fresh:
            byclass.setdefault(x[2]["class"], x)
        for cls, (index, var, v, scn) in list(byclass.items())[:3]:
            best, tried = minimise(mod, scn, cls, known)
            res = execute(mod, best, True)
            vv = [y for y in res.get("violations", ()) if y["class"] == cls
                  and not is_known(known, y)]
            if not vv:
                print("HARNESS-ERROR: violation %s did not repeat" % cls)
                code = 3
                continue
            path = write_replay(prop, best, vv[0], res, seed, index, var)
            # the replay must fail the same way in a fresh interpreter
            env = dict(os.environ, PYTHONHASHSEED="77")
            p = subprocess.run(
                [sys.executable, os.path.abspath(__file__), prop, "--replay",
                 path], env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT)
            if p.returncode != 1:
                print("HARNESS-ERROR: replay of %s in a fresh process gave "
                      "exit %d\n%s" % (path, p.returncode,
                                       p.stdout.decode()[-2000:]))
                code = 3
                continue
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  class: %s (seed %d scenario %d variant %d; minimised "
                  "with %d runs)\n  %s" % (cls, seed, index, var, tried,
                                           vv[0]["msg"]))
            reported.append(cls)
        if reported:
            code = 1
        elif code == 0:
            code = 3
    if tot["harness"]:
        for h in tot["harness"][:3]:
            print("HARNESS-ERROR scenario %d.%d: %s" % (h[0], h[1], h[2]))
        if code == 0:
            code = 3
    if tot["runs"] == 0:
        print("HARNESS-ERROR: nothing ran")
        code = 3
    n = tot["runs"]
    digs = set(d[2] for d in tot["digests"] if d[4])
    states = set(d[3] for d in tot["digests"] if d[3])
    if not a.no_evidence:
        ev = {
            "property": prop, "tier": tier, "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": n,
                "distinct_nontrivial": len(digs),
                "rule": mod.RULE,
                "samples": [json.loads(json.dumps(s)[:4000]) if len(json.dumps(
                    s)) <= 4000 else {"index": s["index"],
                                      "truncated": json.dumps(s)[:1500]}
                    for s in tot["samples"][:3]],
                "scenarios": nseeds if not tot["capped"] else len(set(
                    d[0] for d in tot["digests"])),
                "runs_per_hour": int(n / max(wall_s, 1e-6) * 3600),
                "seeds_per_hour": int(len(set(d[0] for d in tot["digests"]))
                                      / max(wall_s, 1e-6) * 3600),
                "simulated_seconds": round(tot["simtime"], 3),
                "simulated_system_calls": tot["steps"],
                "faults_fired": tot["fired"],
                "fault_plans_that_fired_nothing": tot["idle"],
                "distinct_event_logs": len(set(d[2] for d in tot["digests"])),
                "distinct_states": len(states),
                "state_measure": getattr(mod, "STATE_MEASURE",
                                         "hash of the final simulated disk"),
                "probes": tot["probes"],
                "real_components": mod.REAL,
                "stub_components": mod.STUB,
                "wall_cap_hit": tot["capped"],
                "workers": a.workers,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "violations": len(fresh),
            "wall_s": round(_wall() - t0, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s: %d runs, %d distinct event logs, %d states, faults %s, "
          "%.1f s%s -> exit %d" % (
              prop, tier, n, len(digs), len(states),
              json.dumps(tot["fired"], sort_keys=True), _wall() - t0,
              " (wall cap)" if tot["capped"] else "", code))
    if tot["probes"]:
        print("  probes: %s" % json.dumps(tot["probes"], sort_keys=True))
    return code


if __name__ == "__main__":
    os.environ.setdefault("PYTHONHASHSEED", "0")
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("HARNESS-ERROR")
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
