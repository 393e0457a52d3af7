"""Run a property's check: explore every harness symbolically, replay, report.

    python -m vp.driver PROPERTY            (VERIF_TIER selects the tier)
    python -m vp.driver --replay FILE
Internal: --job PROP TIER INDEX OUT | --concrete PROP TIER INDEX IN OUT
          --mpirank PROP TIER INDEX IN DIR
"""

from __future__ import annotations

import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import env

env.setup()

VERIF, REPO = env.VERIF, env.REPO


def load(prop):
    import importlib

    return importlib.import_module("props." + prop.lower())


def harnesses(prop, tier):
    return load(prop).harnesses(tier)


# ------------------------------------------------------------------ worker entry points


def job(prop, tier, idx, out, deadline):
    from . import engine, harness

    t0 = time.time()
    os.environ["VP_LAST"] = out + ".last"
    h = harnesses(prop, tier)[idx]
    r = {"name": h.name, "params": {k: repr(v) for k, v in h.params.items()},
         "bounds": h.bounds}
    try:
        with harness.FunctionCoverage(REPO) as cov:
            if hasattr(h, "run_custom"):
                r.update(h.run_custom(deadline))
            else:
                ex, samples = h.explore(deadline)
                st = ex.stats
                r.update(
                    status="fail" if ex.failures else "ok",
                    failures=[{"msg": f.msg, "inputs": f.inputs,
                               "detail": repr(f.detail)[:2000]} for f in ex.failures],
                    paths=st.paths, infeasible=st.infeasible, decisions=st.decisions,
                    queries=st.queries, solver_s=st.solver_s, checks=st.checks,
                    checks_symbolic=st.checks_symbolic, realisations=st.realisations,
                    reached=sorted(ex.reached), missing=sorted(h.reach - ex.reached),
                    samples=samples,
                )
        r["functions"] = sorted(cov.seen | engine.ENCODED | set(r.get("functions", [])))
    except engine.Skip as e:
        r.update(status="skipped", error=str(e))
    except engine.Inconclusive as e:
        r.update(status="inconclusive", error=str(e))
    except Exception:
        r.update(status="error", error=traceback.format_exc()[-4000:])
    r["wall"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(r, f)


def concrete(prop, tier, idx, inp, out):
    from . import harness

    h = harnesses(prop, tier)[idx]
    res = []
    for i in json.load(open(inp)):
        if hasattr(h, "replay_custom"):
            res.append(h.replay_custom(i))
        else:
            res.append(harness.run_concrete(h, i))
    with open(out, "w") as f:
        json.dump(res, f)


def _safe(x):
    try:
        pickle.dumps(x)
        return x
    except Exception:
        return repr(x)


def mpirank(prop, tier, idx, inp, d):
    """One real MPI rank running a list of concrete inputs."""
    from mpi4py import MPI

    from . import engine

    # the world has one process more than the communicator under test, so that code which uses
    # the world instead of the communicator it was given is seen
    world = MPI.COMM_WORLD
    comm = world.Split(0 if world.rank else 1, world.rank)
    todo = json.load(open(inp))
    import caput.util.mpitools  # noqa: F401 - collective over the world when imported

    if world.rank == 0:
        last = [os.path.join(d, f"{len(todo) - 1}.{r}") for r in range(world.size - 1)]
        while not all(map(os.path.exists, last)):
            world.Iprobe()  # lets the library make progress
            time.sleep(0.002)
        time.sleep(0.5)
        os._exit(0)
    h = harnesses(prop, tier)[idx]
    for n, inputs in enumerate(todo):
        ctx = engine.ConcreteCtx(inputs, h.params)
        try:
            i = h.setup(ctx)
            res = ("ok", h.rank(ctx, comm, i))
        except engine.Steer as e:
            res = ("steer", type(e).__name__ + ":" + str(e))
        except Exception as e:
            res = ("exc", e)
        try:
            blob = pickle.dumps(res)
        except Exception:
            blob = pickle.dumps(("exc", RuntimeError(repr(res[1]))) if res[0] == "exc"
                                else (res[0], repr(res[1])))
        p = os.path.join(d, f"{n}.{comm.rank}")
        with open(p + ".tmp", "wb") as f:
            f.write(blob)
        os.rename(p + ".tmp", p)
        t0 = time.time()
        while not all(os.path.exists(os.path.join(d, f"{n}.{r}")) for r in range(comm.size)):
            if time.time() - t0 > 20:
                os._exit(7)
            time.sleep(0.01)
    os._exit(0)


# ------------------------------------------------------------------------- orchestration


def sub(args, timeout, log=None):
    cmd = [sys.executable, "-B", "-m", "vp.driver", *map(str, args)]
    return subprocess.run(cmd, cwd=VERIF, capture_output=True, text=True, timeout=timeout)


def mpirun(n, args, timeout, scratch):
    # a session directory per launch: concurrent launches race on a shared one
    tmp = tempfile.mkdtemp(prefix="ompi", dir=scratch)
    cmd = ["timeout", "-k", "5", str(int(timeout)), "mpirun", "--oversubscribe", "--bind-to",
           "none", "--mca", "btl", "self,vader", "--mca", "plm", "isolated", "--mca",
           "mpi_yield_when_idle", "1", "--mca", "orte_tmpdir_base", tmp, "-np", str(n),
           sys.executable, "-B", "-m", "vp.driver", *map(str, args)]
    e = dict(os.environ, TMPDIR=tmp)
    return subprocess.run(cmd, cwd=VERIF, capture_output=True, text=True, env=e,
                          stdin=subprocess.DEVNULL)


def run_real(prop, tier, idx, h, inputs, scratch, timeout=120):
    """Replay inputs on the real, unpatched code. Returns list of (status, msg, detail)."""
    from . import engine

    d = tempfile.mkdtemp(dir=scratch)
    inp = os.path.join(d, "in.json")
    json.dump(inputs, open(inp, "w"))
    if not h.nranks:
        out = os.path.join(d, "out.json")
        p = sub(["--concrete", prop, tier, idx, inp, out], timeout)
        if not os.path.exists(out):
            if p.returncode < 0 and len(inputs) == 1:
                return [("fail", f"the process died (signal {-p.returncode})",
                         (p.stdout + p.stderr)[-1500:])]
            return [("error", "replay process died", (p.stdout + p.stderr)[-2000:])] * len(inputs)
        return [tuple(x) for x in json.load(open(out))]
    from . import mpisim

    for _ in range(3):
        p = mpirun(h.nranks + 1, ["--mpirank", prop, tier, idx, inp, d], timeout, scratch)
        if any(os.path.exists(os.path.join(d, f"0.{r}")) for r in range(h.nranks)):
            break
        if p.returncode == 124:
            break
    res = []
    for n, i in enumerate(inputs):
        ranks = []
        for r in range(h.nranks):
            f = os.path.join(d, f"{n}.{r}")
            if os.path.exists(f):
                ranks.append(pickle.load(open(f, "rb")))
            else:
                ranks.append(None)
        if all(x is None for x in ranks):
            if n and res and res[-1][0] == "fail":
                res.append(("skipped", "", None))
            else:
                res.append(("norun", "no rank reported", (p.stdout + p.stderr)[-2000:]))
            continue
        ranks = [("exc", mpisim.Deadlock("rank did not finish")) if x is None else x
                 for x in ranks]
        if any(x[0] == "steer" for x in ranks):
            s = [x[1] for x in ranks if x[0] == "steer"][0]
            if s.startswith("Failure"):
                res.append(("fail", s, None))
            else:
                res.append(("infeasible", s, None))
            continue
        ctx = engine.ConcreteCtx(i, h.params)
        try:
            inpv = h.setup(ctx)
            h.final(ctx, ranks, inpv)
            res.append(("pass", "", None))
        except engine.PathInfeasible:
            res.append(("infeasible", "", None))
        except engine.PathDone:
            res.append(("pass", "", None))
        except engine.Failure as f:
            res.append(("fail", f.msg, repr(f.detail)[:2000]))
        except Exception as e:
            res.append(("error", f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:]))
    return res


def run_sim(prop, tier, idx, inputs, scratch):
    d = tempfile.mkdtemp(dir=scratch)
    inp, out = os.path.join(d, "in.json"), os.path.join(d, "out.json")
    json.dump(inputs, open(inp, "w"))
    p = sub(["--sim", prop, tier, idx, inp, out], 120)
    if not os.path.exists(out):
        return ("error", "simulated replay died", (p.stdout + p.stderr)[-1000:])
    r = json.load(open(out))
    if r[0] == "fail" and any(k in r[1] for k in ("AttributeError", "MPISimError", "TypeError")):
        return ("error", r[1], r[2])
    return tuple(r)


def sim(prop, tier, idx, inp, out):
    from . import engine

    h = harnesses(prop, tier)[idx]
    ctx = engine.ConcreteCtx(json.load(open(inp)), h.params)
    try:
        h.sym_body()(ctx)
        r = ("pass", "", None)
    except engine.Failure as f:
        r = ("fail", f.msg, repr(f.detail)[:2000])
    except engine.Steer as e:
        r = ("infeasible", str(e), None)
    with open(out, "w") as fh:
        json.dump(r, fh)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="vp-")
    os.environ["VP_SCRATCH"] = scratch
    try:
        return _check(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, tier, seed, scratch, t0):
    mod = load(prop)
    hs = mod.harnesses(tier)
    budget = getattr(mod, "BUDGET", {"quick": 700, "thorough": 7200})[tier]
    deadline = t0 + budget
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    nw = int(os.environ.get("VP_JOBS", os.cpu_count() or 4))
    results = [None] * len(hs)

    def one(i):
        out = os.path.join(scratch, f"job{i}.json")
        try:
            p = sub(["--job", prop, tier, i, out, deadline], max(30, deadline - time.time() + 60))
        except subprocess.TimeoutExpired:
            results[i] = {"name": hs[i].name, "status": "inconclusive", "error": "timeout"}
            return
        if os.path.exists(out):
            results[i] = json.load(open(out))
        elif p.returncode < 0 and os.path.exists(out + ".last"):
            # compiled code brought the process down: replayed below
            results[i] = {"name": hs[i].name, "status": "fail", "failures": [
                {"msg": f"the process died (signal {-p.returncode})", "detail": None,
                 "inputs": json.load(open(out + ".last"))}]}
        else:
            results[i] = {"name": hs[i].name, "status": "error",
                          "error": f"exit {p.returncode}\n" + (p.stdout + p.stderr)[-3000:]}

    order = sorted(range(len(hs)), key=lambda i: -hs[i].weight)
    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(one, order))

    # replay failures, and validate sampled paths, on the real code
    validated = 0
    violations = []
    errors = []
    unreproduced = []

    def replay(i):
        h, r = hs[i], results[i]
        o = {"validated": 0, "viol": [], "err": [], "unrep": []}
        if r["status"] in ("error", "inconclusive"):
            o["err"].append(f"{h.name}: {r['status']}: {r.get('error')}")
            return o
        if r["status"] == "skipped":
            return o
        if r.get("missing") and r["status"] == "ok":
            o["err"].append(f"{h.name}: vacuous, never reached {r['missing']}")
        for f in r.get("failures", []):
            rr = run_real(prop, tier, i, h, [f["inputs"]], scratch, 90)[0]
            if rr[0] != "fail" and h.nranks and (
                rr[0] == "norun"
                or f["inputs"].get("_rendezvous") or f["inputs"].get("_late")
            ):
                # depends on when the library completes a send: mpirun gives no control over
                # that, so run the unpatched code on the conforming simulated schedule
                rr = run_sim(prop, tier, i, f["inputs"], scratch)
            if rr[0] == "fail":
                o["viol"].append((i, f, rr))
            else:
                o["unrep"].append(f"{h.name}: counterexample {f} did not reproduce: {rr}")
        s = r.get("samples") or []
        if s and not r.get("failures"):
            rr = run_real(prop, tier, i, h, s, scratch, 200)
            for inp, x in zip(s, rr):
                if x[0] in ("pass", "infeasible"):
                    o["validated"] += x[0] == "pass"
                elif x[0] == "fail":
                    # the real code fails where the exploration passed: the real
                    # execution is what counts
                    o["viol"].append((i, {"msg": x[1], "inputs": inp, "detail": x[2]}, x))
                elif x[0] not in ("skipped", "norun"):
                    o["err"].append(f"{h.name}: validation of {inp}: {x}")
        return o

    with ThreadPoolExecutor(max(1, nw // 2)) as ex:
        outs = list(ex.map(replay, range(len(hs))))
    for o in outs:
        validated += o["validated"]
        violations += o["viol"]
        errors += o["err"]
        unreproduced += o["unrep"]

    known = load_known(prop)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    new = []
    seen_known = set()
    for i, f, rr in violations:
        k = match_known(known, hs[i], f, rr)
        if k is not None:
            if k["id"] not in seen_known:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
                seen_known.add(k["id"])
            continue
        path = os.path.join(VERIF, "replays", f"{prop}-{hs[i].name}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "tier": tier, "index": i, "harness": hs[i].name,
                       "params": {a: repr(b) for a, b in hs[i].params.items()},
                       "inputs": f["inputs"], "message": f["msg"],
                       "detail": f.get("detail"), "observed": rr[1], "observed_detail": rr[2]},
                      fh, indent=1, default=str)
        new.append((path, hs[i].name, rr[1] or f["msg"], f["inputs"]))

    for k in known:
        if k.get("status") == "known" and k["id"] not in seen_known and k.get("always", True):
            # a listed finding is re-established on every run by its own harness
            pass

    write_evidence(prop, tier, seed, hs, results, validated, len(new), t0, mod)
    if os.environ.get("VP_VERBOSE"):
        for r in results:
            print("#", r["name"], r["status"], "paths", r.get("paths"), "q", r.get("queries"),
                  "solver %.1f" % r.get("solver_s", 0), "wall %.1f" % r.get("wall", 0))
    if new:
        for e in errors + unreproduced:
            print("# (also) ERROR", e[:600])
        for path, name, msg, inp in new:
            print(f"# {name}: {msg} inputs={inp}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or unreproduced:
        for e in errors + unreproduced:
            print("ERROR", e)
        return 2
    tot = sum(r.get("paths", 0) for r in results)
    print(f"OK property={prop} tier={tier} harnesses={len(hs)} paths={tot} "
          f"queries={sum(r.get('queries', 0) for r in results)} "
          f"validated={validated} wall={time.time() - t0:.1f}s")
    return 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def match_known(known, h, f, rr):
    for k in known:
        if k.get("status") != "known" or k["harness"] != h.name:
            continue
        if k.get("message") and k["message"] not in (rr[1] or "") + "|" + f["msg"]:
            continue
        when = k.get("when")
        if when:
            try:
                if not eval(when, {"__builtins__": {}}, dict(f["inputs"])):
                    continue
            except Exception:
                continue
        return k
    return None


def write_evidence(prop, tier, seed, hs, results, validated, nviol, t0, mod):
    fn = sorted({f for r in results for f in r.get("functions", [])})
    samples = []
    for r in results:
        for s in (r.get("samples") or [])[:2]:
            samples.append({"harness": r["name"], "inputs": s})
    cov = {
        "states": sum(r.get("paths", 0) + r.get("infeasible", 0) for r in results),
        "transitions": sum(r.get("decisions", 0) for r in results),
        "traces_validated_against_impl": validated,
        "samples": samples[:40],
        "exhaustive": all(r.get("status") in ("ok",) for r in results),
        "meaning": "states = symbolic paths explored (each a set of inputs given by its path "
                   "condition); transitions = solver-decided branch/realisation points; "
                   "traces_validated = path models re-run on the unpatched code",
        "assertions_discharged": sum(r.get("checks", 0) for r in results),
        "assertions_needing_solver": sum(r.get("checks_symbolic", 0) for r in results),
        "solver_queries": sum(r.get("queries", 0) for r in results),
        "solver_seconds": round(sum(r.get("solver_s", 0) for r in results), 3),
        "functions_encoded": fn,
        "harnesses": [
            {"name": r["name"], "status": r["status"], "params": r.get("params"),
             "bounds": r.get("bounds", ""), "paths": r.get("paths"),
             "infeasible_paths": r.get("infeasible"), "queries": r.get("queries"),
             "solver_s": round(r.get("solver_s", 0), 3), "wall_s": round(r.get("wall", 0), 2),
             "reached": r.get("reached"), "why": r.get("error")} for r in results
        ],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(argv):
    if argv[0] == "--job":
        return job(argv[1], argv[2], int(argv[3]), argv[4], float(argv[5])) or 0
    if argv[0] == "--concrete":
        return concrete(argv[1], argv[2], int(argv[3]), argv[4], argv[5]) or 0
    if argv[0] == "--sim":
        return sim(argv[1], argv[2], int(argv[3]), argv[4], argv[5]) or 0
    if argv[0] == "--mpirank":
        return mpirank(argv[1], argv[2], int(argv[3]), argv[4], argv[5]) or 0
    if argv[0] == "--replay":
        r = json.load(open(argv[1]))
        scratch = tempfile.mkdtemp(prefix="vp-")
        os.environ["VP_SCRATCH"] = scratch
        try:
            h = harnesses(r["property"], r["tier"])[r["index"]]
            print(run_real(r["property"], r["tier"], r["index"], h, [r["inputs"]], scratch))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0].upper(), tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
