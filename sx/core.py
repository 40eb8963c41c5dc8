"""
sx.core - the path explorer and its connection to Z3.

The code under test is the real source of /repo, instrumented at load time
(sx.load).  It runs on ordinary Python values mixed with the symbolic proxies
of sx.vals.  Every truth test on a symbolic condition goes to Engine.branch,
which asks Z3 which sides are feasible under the path condition and explores
each feasible side by re-execution (depth first, incremental solver).
"""
import time as _time
import z3


ENDS = "what is asked for comes to an end"


class SxExit(BaseException):
    "engine control flow; never caught by the code under test"


class PathInfeasible(SxExit):
    pass


class PathStop(SxExit):
    "the path ends here (assumption false, or the check is already decided on it)"


INCOMPLETE = "behaves as stated where the encoding ends: "


class Unsupported(SxExit):
    "the encoding does not reach this operation: the path is reported incomplete"


class EngineBug(SxExit):
    pass


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

_cur = None          # the current context: SymCtx or ConcreteCtx


def ctx():
    return _cur


def set_ctx(c):
    global _cur
    _cur = c


class Stats:
    FIELDS = ("paths", "aborted", "incomplete", "queries", "sat", "unsat", "unknown",
              "obligations", "discharged", "trivial", "undecided", "branches", "forks",
              "witness", "replays")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.incomplete_why = {}
        self.functions = {}
        self.samples = []
        self.labels = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["incomplete_why"] = self.incomplete_why
        d["functions"] = self.functions
        d["samples"] = self.samples
        d["labels"] = self.labels
        return d

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        self.solver_s += d["solver_s"]
        for k, v in d["incomplete_why"].items():
            self.incomplete_why[k] = self.incomplete_why.get(k, 0) + v
        for k, v in d["functions"].items():
            self.functions[k] = self.functions.get(k, 0) + v
        for k, v in d["labels"].items():
            o = self.labels.setdefault(k, [0, 0])
            o[0] += v[0]
            o[1] += v[1]
        for s in d["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)


QUERY_MS = 20000
CONC_CAP = 400


class Engine:
    """One symbolic exploration of a harness, restricted to a decision prefix."""

    def __init__(self, harness, prefix=(), deadline=None, slice_s=None, max_cex=3, stats=None,
                 dead_labels=None):
        self.harness = harness
        self.prefix0 = list(prefix)
        self.deadline = deadline
        self.slice_s = slice_s
        self.stats = stats or Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", QUERY_MS)
        self.levels = []          # terms asserted, one solver level each
        self.cex = []
        self.max_cex = max_cex
        self.dead_labels = dict(dead_labels or {})

    # ---- solver plumbing -------------------------------------------------
    def _check(self, *extra):
        self.stats.queries += 1
        t0 = _time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += _time.perf_counter() - t0
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _assert(self, t):
        """add a path-condition conjunct; terms shared with the previous run are reused"""
        i = self.npc
        if i < len(self.levels) and self.levels[i].eq(t):
            self.npc += 1
            return
        if i < len(self.levels):
            self.solver.pop(len(self.levels) - i)
            del self.levels[i:]
        self.solver.push()
        self.solver.add(t)
        self.levels.append(t)
        self.npc += 1

    def _sync(self):
        if len(self.levels) > self.npc:
            self.solver.pop(len(self.levels) - self.npc)
            del self.levels[self.npc:]

    def _model_says(self, t):
        if self.model is None:
            return None
        v = self.model.eval(t, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ---- called by proxies ------------------------------------------------
    def branch(self, t):
        """truth of the Z3 term t on this path"""
        if t is True or t is False:
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.dying:
            return False
        self.stats.branches += 1
        i = self.pos
        if i < len(self.trail):
            kind, taken = self.trail[i][0], self.trail[i][1]
            self.pos += 1
            if kind == "f":
                return taken
            if kind != "b":
                raise EngineBug("replayed decision %r at a branch: execution is not deterministic" % (kind,))
            self._assert(t if taken else z3.Not(t))
            if self.model is not None and self._model_says(t) is not taken:
                self.model = None
            return taken
        self._budget()
        self._sync()
        guess = self._model_says(t)
        if guess is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
                guess = self._model_says(t)
            elif r == z3.unsat:
                raise PathInfeasible()
        if guess is None:
            guess = True
            rg = self._check(t)
            if rg == z3.unsat:
                self._log("f", False)
                return False
        other = z3.Not(t) if guess else t
        r = self._check(other)
        if r == z3.unsat:
            self._log("f", guess)
            return guess
        # both sides feasible (or not shown infeasible): take the guess, queue the other
        self.stats.forks += 1
        self.pending.append(self.trail[:self.pos] + [("b", not guess)])
        self._log("b", guess)
        self._assert(t if guess else z3.Not(t))
        return guess

    def _log(self, kind, taken):
        self.trail.append((kind, taken))
        self.pos += 1

    def concretize(self, term, decode, hint=None):
        """Fork over every feasible concrete value of a term (solver-enumerated)."""
        n = 0
        while True:
            i = self.pos
            if self.dying:
                raise PathStop()
            if i < len(self.trail):
                e = self.trail[i]
                if e[0] != "c":
                    raise EngineBug("replayed decision %r at a concretisation" % (e,))
                self.pos += 1
                raw, taken = e[2], e[1]
                eq = term == raw if not isinstance(raw, bool) else (term == z3.BoolVal(raw))
                if taken == "only":
                    return decode(raw)
                self._assert(eq if taken else z3.Not(eq))
                self.model = None
                if taken:
                    return decode(raw)
                n += 1
                continue
            self._budget()
            self._sync()
            n += 1
            if n > CONC_CAP:
                raise Unsupported("more than %d concrete values at a concretisation" % CONC_CAP)
            if self.model is None:
                r = self._check()
                if r != z3.sat:
                    if r == z3.unsat:
                        raise PathInfeasible()
                    raise Unsupported("solver gave up at a concretisation")
                self.model = self.solver.model()
            v = self.model.eval(term, model_completion=True)
            raw = v.as_long() if z3.is_bv_value(v) else z3.is_true(v)
            eq = term == raw if not isinstance(raw, bool) else (term == z3.BoolVal(raw))
            r = self._check(z3.Not(eq))
            if r == z3.unsat:
                self.trail.append(("c", "only", raw))
                self.pos += 1
                return decode(raw)
            self.stats.forks += 1
            self.pending.append(self.trail[:self.pos] + [("c", False, raw)])
            self.trail.append(("c", True, raw))
            self.pos += 1
            self._assert(eq)
            return decode(raw)

    def assume(self, t):
        if t is True:
            return
        if t is False:
            raise PathStop()
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathStop()
        self._assert(t)
        if self.model is not None and self._model_says(t) is not True:
            self.model = None
            if self.pos >= len(self.trail):
                self._sync()
                r = self._check()
                if r == z3.unsat:
                    raise PathStop()
                if r == z3.sat:
                    self.model = self.solver.model()

    def prove(self, t, label, info):
        """the property assertion: PC and not t must be unsatisfiable"""
        if label in self.dead_labels and self.dead_labels[label] >= self.max_cex:
            if t is False:
                raise PathStop()
            if t is not True:
                self.assume(t)
            return
        st = self.stats
        lab = st.labels.setdefault(label, [0, 0])
        replaying = self.pos < len(self.trail)
        if t is not True and t is not False:
            t = z3.simplify(t)
            if z3.is_true(t):
                t = True
            elif z3.is_false(t):
                t = False
        if t is True:
            if not replaying:
                st.obligations += 1
                st.discharged += 1
                st.trivial += 1
                lab[0] += 1
                lab[1] += 1
            return
        if replaying:
            # already decided on the run that first reached this point
            if t is False:
                raise PathStop()
            self._assert(t)
            self.model = None
            return
        st.obligations += 1
        lab[0] += 1
        self._sync()
        r = self._check() if t is False else self._check(z3.Not(t))
        if r == z3.unsat:
            if t is False:
                raise PathInfeasible()
            st.discharged += 1
            lab[1] += 1
        elif r == z3.sat:
            m = self.solver.model()
            self._record(label, info, m)
        else:
            st.undecided += 1
            st.incomplete_why["solver unknown on an assertion"] = \
                st.incomplete_why.get("solver unknown on an assertion", 0) + 1
        if t is False:
            raise PathStop()
        self._assert(t)
        if r != z3.unsat:
            self.model = None
            self._sync()
            if self._check() == z3.unsat:
                raise PathStop()

    def _record(self, label, info, m):
        self.cex.append({"label": label, "info": None if callable(info) else str(info), "values": self.ctxt.concrete_inputs(m)})
        self.dead_labels[label] = self.dead_labels.get(label, 0) + 1

    def _candidate(self, why):
        "the encoding ends here: what the real code does with these inputs, the replay tells"
        if self.dead_labels.get(INCOMPLETE + why, 0) < 4:
            try:
                self._sync()
                if self._check() == z3.sat:
                    self._record(INCOMPLETE + why, None, self.solver.model())
            except SxExit:
                pass

    def _budget(self):
        if self.deadline is not None and _time.time() > self.deadline:
            raise PathStop("deadline")

    # ---- exploration ------------------------------------------------------
    def explore(self):
        """returns the list of unexplored prefixes (empty when exhausted)"""
        from .ctx import SymCtx
        from . import watch
        self.pending = [list(self.prefix0)]
        t0 = _time.time()
        while self.pending:
            now = _time.time()
            if self.deadline is not None and now > self.deadline:
                return self.pending
            if self.slice_s is not None and now - t0 > self.slice_s:
                return self.pending
            self.trail = self.pending.pop()
            self.pos = 0
            self.npc = 0
            self.model = None
            self.dying = False
            self.ctxt = SymCtx(self)
            set_ctx(self.ctxt)
            keep = len(self.pending)
            try:
                with watch.watch(self.ctxt, watch.SYMBOLIC_S):
                    self.harness.run(self.ctxt)
                self.stats.paths += 1
                if self.ctxt.checks_reached:
                    self.stats.witness += 1
                if len(self.stats.samples) < 2 and self.ctxt.checks_reached:
                    self._sync()
                    if self._check() == z3.sat:
                        self.stats.samples.append({"harness": self.harness.name,
                                                   "decisions": len(self.trail),
                                                   "values": self.ctxt.concrete_inputs(self.solver.model())})
            except PathInfeasible:
                self.stats.aborted += 1
            except watch.Endless:
                # the solver may have been interrupted: a new one; whether it really is endless the replay will tell
                self.solver, levels = z3.Solver(), self.levels
                self.solver.set("timeout", QUERY_MS)
                self.levels = []
                k = self.npc
                self.npc = 0
                for t in levels[:k]:
                    self._assert(t)
                self.stats.incomplete += 1
                self.stats.incomplete_why["used up its time"] = self.stats.incomplete_why.get("used up its time", 0) + 1
                if self._check() == z3.sat:
                    self._record(ENDS, None, self.solver.model())
            except PathStop as e:
                if e.args and e.args[0] == "deadline":
                    # this path was cut: put it back
                    self.pending.append(self.trail[:self.pos])
                    return self.pending
                self.stats.aborted += 1
                if self.ctxt.checks_reached:
                    self.stats.witness += 1
            except Unsupported as e:
                self.stats.incomplete += 1
                k = str(e.args[0] if e.args else "unsupported")[:160]
                self.stats.incomplete_why[k] = self.stats.incomplete_why.get(k, 0) + 1
                self._candidate(k)
            except SxExit as e:
                self.stats.incomplete += 1
                k = "%s: %s" % (type(e).__name__, str(e)[:160])
                self.stats.incomplete_why[k] = self.stats.incomplete_why.get(k, 0) + 1
                self._candidate(k)
            finally:
                self.dying = True
                self.ctxt.cleanup()
                set_ctx(None)
        return []
