"""
sx.run - runs the harnesses of one property on all cores, replays counterexamples
against the plain source, applies the known findings, writes the evidence.
"""
import gc
import faulthandler, signal as _signal
faulthandler.register(_signal.SIGUSR1, all_threads=True)
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import core, load, stubs, watch
from .core import Engine, Stats, PathStop, SxExit
from .ctx import ConcreteCtx


class Harness:
    def __init__(self, name, fn, bounds="", **params):
        self.name, self.fn, self.bounds, self.params = name, fn, bounds, params

    def run(self, ctx):
        try:
            self.fn(ctx, **self.params)
        except Exception as e:
            where = origin(e)
            if where == "repo":
                ctx.checks_reached = getattr(ctx, "checks_reached", 0)
                ctx.fail("unexpected %s from the code under test" % type(e).__name__, safe(e) + " at " + tb_last(e))
            elif not ctx.symbolic and unreadable(e):
                ctx.failures.append(("what comes back can be read", "%s: %s at %s" % (type(e).__name__, safe(e), tb_last(e))))
            elif ctx.symbolic:
                raise core.Unsupported("harness: %s: %s at %s" % (type(e).__name__, safe(e), tb_last(e)))
            else:
                raise


def unreadable(e):
    """the harness did not find what it looked for in what the code gave it; but what it looks for in the objects
    of the code itself could have got another name"""
    if isinstance(e, AttributeError):
        return not getattr(type(e.obj), "__module__", "").startswith(("mqtt", "mbt")) and type(e.obj).__name__ != "module"
    return isinstance(e, (LookupError, TypeError, ValueError))


def safe(e):
    try:
        return str(e)[:120]
    except BaseException:
        return "?"


def tb_last(e):
    fr = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in fr[-3:][::-1])


def origin(e):
    """'repo' when the exception passed through a frame of the code under test
    below the harness and was raised there (or in the engine on its behalf)"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(load.ROOT):
            last = "repo"
        elif os.sep + "checks" + os.sep in fn:
            last = "harness"
        tb = tb.tb_next
    return last


# ------------------------------------------------------------------ workers
def _worker(conn, harnesses, deadline, slice_s, seed):
    sys.setrecursionlimit(20000)
    gc.set_threshold(200000, 20, 100)
    random.seed(seed)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            hi, prefix, dead = msg
            st = Stats()
            eng = Engine(harnesses[hi], prefix, deadline=deadline, slice_s=slice_s, stats=st, dead_labels=dead)
            load.SEEN.clear()
            err = None
            left = []
            try:
                left = eng.explore()
            except core.EngineBug as e:
                err = "engine: %s" % e
            except Exception:
                err = traceback.format_exc()
            for k in load.SEEN:
                st.functions[k] = 1
            conn.send((hi, left, st.as_dict(), eng.cex, err))
    except (EOFError, KeyboardInterrupt):
        pass
    conn.close()
    os._exit(0)


def explore(harnesses, budget_s, jobs=None, slice_s=1.5, seed=1, verbose=False, stop=None):
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    deadline = time.time() + budget_s
    queue = [(i, []) for i in range(len(harnesses))]
    stats = [Stats() for _ in harnesses]
    cexs, errors = [], []
    dead = [dict() for _ in harnesses]
    left_over = [0] * len(harnesses)
    ctxm = mp.get_context("fork")
    workers = []
    for w in range(min(jobs, max(1, jobs))):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(b, harnesses, deadline, slice_s, seed * 1000 + w), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    idle = list(workers)
    busy = {}
    tstart = [None] * len(harnesses)
    tspent = [0.0] * len(harnesses)
    stopping = False
    while queue or busy:
        while queue and idle:
            # breadth over harnesses first, then the oldest prefix (largest subtree)
            hi, prefix = queue.pop(0)
            if time.time() > deadline:
                left_over[hi] += 1
                continue
            w = idle.pop()
            w[2] = (hi, time.time())
            try:
                w[1].send((hi, prefix, dead[hi]))
            except (BrokenPipeError, OSError):
                errors.append((harnesses[hi].name, "worker died"))
                continue
            busy[w[1]] = w
        if not busy:
            continue
        if time.time() > deadline + 200:         # blocked
            for w in busy.values():
                errors.append((harnesses[w[2][0]].name, "no end: blocked"))
                left_over[w[2][0]] += 1
                w[0].kill()
            break
        for c in mpc.wait(list(busy), timeout=5):
            w = busy.pop(c)
            try:
                hi, left, st, cex, err = c.recv()
            except (EOFError, OSError):
                hi = w[2][0]
                errors.append((harnesses[hi].name, "worker ended while exploring (memory?)"))
                left_over[hi] += 1
                continue
            tspent[hi] += time.time() - w[2][1]
            stats[hi].merge(st)
            if err:
                errors.append((harnesses[hi].name, err))
            for x in cex:
                x["harness"] = hi
                cexs.append(x)
                dead[hi][x["label"]] = dead[hi].get(x["label"], 0) + 1
            for p in left:
                queue.append((hi, p))
            idle.append(w)
            if stop is not None and not stopping and any(not x["label"].startswith(core.INCOMPLETE) for x in cexs):  # one counterexample is enough, but it may not be reproduced: look for others for a while
                stopping = True
                deadline = min(deadline, time.time() + stop)
    for p, c, _ in workers:
        try:
            c.send(None)
        except (BrokenPipeError, OSError):
            pass
    for p, c, _ in workers:
        p.join(5)
        if p.is_alive():
            p.terminate()
    return stats, cexs, errors, left_over, tspent


# ------------------------------------------------------------------ replay
def replay_values(harness, values):
    """run the harness on concrete values against the plain source; the list of failed checks"""
    c = ConcreteCtx(values)
    core.set_ctx(c)
    try:
        with watch.watch(c, watch.CONCRETE_S):
            harness.run(c)
    except watch.Endless:
        return c.failures + [(core.ENDS, "used %d s" % watch.CONCRETE_S)], c
    except PathStop:
        pass
    except SxExit as e:
        return [("engine", str(e))], c
    finally:
        c.cleanup()
        core.set_ctx(None)
    return c.failures, c


# ------------------------------------------------------------------ findings
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]


def main(prop, make_harnesses, assumptions=(), level="model_checking", doc="", budget=None, known=None):
    """make_harnesses(tier) -> list of Harness"""
    t0 = time.time()
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in args
    if "--replay" in args:
        return do_replay(prop, make_harnesses, args[args.index("--replay") + 1])
    hs = make_harnesses(tier)
    if "--only" in args:
        pat = args[args.index("--only") + 1]
        hs = [h for h in hs if pat in h.name]
    budget = budget or {"quick": 100, "thorough": 780}
    b = budget[tier] if isinstance(budget, dict) else budget
    if os.environ.get("VERIF_BUDGET"):
        b = float(os.environ["VERIF_BUDGET"])
    stop = 0 if os.environ.get("VERIF_STOP") else 8 if tier == "quick" and "--all" not in args else None
    stats, cexs, errors, left, tspent = explore(hs, b, seed=seed, verbose=verbose, stop=stop)

    # counterexamples: replay every distinct label until one reproduces
    violations, spurious = [], []
    by = {}
    for x in cexs:
        by.setdefault((x["harness"], x["label"]), []).append(x)
    rdir = os.path.join(VERIF, "evidence", "replay")
    nrep = 0
    for (hi, label), xs in sorted(by.items()):
        ok = None
        for x in xs:
            nrep += 1
            try:
                fails, c = replay_values(hs[hi], x["values"])
            except Exception as e:
                fails, c = [], None
                errors.append((hs[hi].name, "replay: " + traceback.format_exc()))
            if fails:
                ok = (x, fails, c)
                break
        if ok:
            x, fails, c = ok
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, hs[hi].name.replace("/", "_").replace(" ", "_"), len(violations)))
            json.dump({"property": prop, "tier": tier, "harness": hs[hi].name, "label": label,
                       "values": x["values"], "failed": [list(map(str, f)) for f in fails],
                       "trace": c.trace}, open(path, "w"), indent=1)
            violations.append((path, hs[hi].name, label, fails))
        elif not label.startswith(core.INCOMPLETE):
            spurious.append((hs[hi].name, label + " [%s]" % xs[0]["info"], xs[0]["values"]))

    # known findings: a specific input each, replayed on the real code
    kf = []
    for f in known_findings(prop):
        if f.get("status", "open") != "open":
            continue
        h = next((h for h in make_harnesses("known") if h.name == f["harness"]), None)
        still = bool(h and replay_values(h, f["values"])[0])
        kf.append((f, still))

    tot = Stats()
    for s in stats:
        tot.merge(s.as_dict())
    per = []
    for h, s, l, t in zip(hs, stats, left, tspent):
        per.append({"harness": h.name, "bounds": h.bounds, "paths": s.paths, "ended_early": s.aborted,
                    "incomplete_paths": s.incomplete, "forks": s.forks, "obligations": s.obligations,
                    "discharged": s.discharged, "undecided": s.undecided, "queries": s.queries,
                    "solver_s": round(s.solver_s, 2), "cpu_s": round(t, 2),
                    "exhausted": l == 0 and s.incomplete == 0 and s.undecided == 0,
                    "unexplored_prefixes": l, "reachability_witness": s.witness,
                    "incomplete_why": s.incomplete_why,
                    "assertions": {k: v for k, v in sorted(s.labels.items())}})
        if verbose:
            print("  %-34s paths=%d early=%d inc=%d obl=%d/%d forks=%d q=%d solver=%.1fs cpu=%.1fs left=%d wit=%d %s" % (
                h.name, s.paths, s.aborted, s.incomplete, s.discharged, s.obligations, s.forks, s.queries,
                s.solver_s, t, l, s.witness, dict(list(s.incomplete_why.items())[:3]) if s.incomplete_why else ""))
    vac = [h.name for h, s in zip(hs, stats) if s.witness == 0]
    exhausted = all(p["exhausted"] for p in per)
    traces = 0
    # validate the encoding: concrete samples of explored paths must behave the same on the plain source
    sampled, disagreements = 0, []
    names = {h.name: h for h in hs}
    for s in stats:
        for smp in s.samples[:2]:
            sampled += 1
            try:
                fails, c = replay_values(names[smp["harness"]], smp["values"])
            except Exception:
                fails = [("harness", traceback.format_exc())]
            if fails and not violations:
                disagreements.append((smp["harness"], fails, smp["values"]))
    cov = {
        "states": tot.paths + tot.aborted, "transitions": tot.branches,
        "traces_validated_against_impl": sampled + nrep,
        "samples": tot.samples[:4],
        "exhaustive": exhausted,
        "technique": "symbolic execution of the real source, Z3 decides branches and assertions",
        "functions_encoded": sorted(tot.functions),
        "symbolic_paths": tot.paths, "paths_ended_early": tot.aborted, "paths_incomplete": tot.incomplete,
        "solver_queries": tot.queries, "sat": tot.sat, "unsat": tot.unsat, "unknown": tot.unknown,
        "solver_s": round(tot.solver_s, 2),
        "obligations": tot.obligations, "discharged": tot.discharged, "discharged_syntactically": tot.trivial,
        "undecided": tot.undecided,
        "vacuous_harnesses": vac,
        "harnesses": per,
        "counterexamples_replayed": nrep, "counterexamples_not_reproduced": [list(map(str, s)) for s in spurious],
        "sample_replay_disagreements": [list(map(str, d)) for d in disagreements],
        "errors": [list(e) for e in errors],
        "explanation": doc,
        "known_findings": [{"what": f["what"], "still_fails": s} for f, s in kf],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions) + stubs.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    print("%s %s: %d harnesses, %d paths, %d/%d assertions discharged, %d queries (%.1f s solver), %s, %.1f s" % (
        prop, tier, len(hs), tot.paths + tot.aborted, tot.discharged, tot.obligations, tot.queries, tot.solver_s,
        "bounds exhausted" if exhausted else "NOT exhausted (see evidence)", time.time() - t0))
    for f, s in kf:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, f["what"], "" if s else " (no longer fails)"))
    for path, hn, label, fails in violations:
        print("  %s: %s %s" % (hn, label, fails[0]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for s in spurious:
        print("  not reproduced: %s: %s %s" % (s[0], s[1], json.dumps(s[2])[:600]))
    for d in disagreements:
        print("  sample disagreement: %s %s %s" % (d[0], str(d[1])[:900], json.dumps(d[2])[:600]))
    for e in errors[:5]:
        print("  error: %s %s" % e)
    if violations:
        return 1
    if spurious or disagreements or errors:
        return 2
    if tot.witness == 0:
        print("  vacuous: no assertion was reached")
        return 2
    return 0


def do_replay(prop, make_harnesses, path):
    r = json.load(open(path))
    for tier in (r.get("tier", "quick"), "thorough", "known"):
        for h in make_harnesses(tier):
            if h.name == r["harness"]:
                fails, c = replay_values(h, r["values"])
                for t in c.trace:
                    print("   ", t)
                print("values:", json.dumps(r["values"]))
                print("FAILED" if fails else "no failure", fails)
                return 1 if fails else 0
    print("no such harness")
    return 2
