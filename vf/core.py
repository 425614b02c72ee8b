"""Harness core: sub-checks over generated cases, violation classification, evidence.

A property module (vf/props/cNN.py) defines PROPERTY (id), RULE (what a case is / what makes it
non-trivial), ASSUMPTIONS and SUBS, a list of Gen / Enum objects.  A sub-check evaluates one
JSON-able case against an oracle; the case is the replay unit.
"""
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property is broken on this case."""


class Discard(Exception):
    """The case is outside the property's domain (counted, never a pass or a failure)."""


class CaseTimeout(BaseException):
    pass


class StopShrinking(BaseException):
    pass


class Trace:
    """What one evaluation of one case reports."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, got, want, what):
        if got != want:
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}")

    def close(self, got, want, what, rel=1e-6, abs_=1e-9):
        ok = isinstance(got, (int, float)) and abs(got - want) <= max(
            abs_, rel * max(abs(got), abs(want))
        )
        if not ok:
            raise Violation(f"{what}: got {got!r}, expected {want!r}")

    @contextlib.contextmanager
    def reading(self, what="result"):
        """Reading the system's output: an output that cannot be read at all is a violation."""
        try:
            yield
        except (Violation, Discard):
            raise
        except Exception as e:  # noqa
            raise Violation(f"{what} is unreadable: {type(e).__name__}: {e}")

    def raises(self, types, fn, what):
        """fn must raise one of `types`; returns the exception."""
        try:
            r = fn()
        except types as e:
            return e
        except (Violation, Discard):
            raise
        except Exception as e:
            raise Violation(f"{what}: expected {types}, got {type(e).__name__}: {e}")
        raise Violation(f"{what}: expected {types}, but it returned {short(r)}")


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Gen:
    """Randomly generated cases: strategy() -> a Hypothesis strategy of JSON-able values."""

    kind = "random"

    def __init__(self, name, strategy, evaluate, quick, thorough, timeout=60, weight=None):
        self.name, self.strategy, self.evaluate = name, strategy, evaluate
        self.quick, self.thorough, self.timeout = quick, thorough, timeout

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


class Enum:
    """An enumerated finite family of cases: cases(tier) -> iterable."""

    kind = "enumerated"

    def __init__(self, name, cases, evaluate, timeout=60):
        self.name, self.cases, self.evaluate, self.timeout = name, cases, evaluate, timeout


def _alarm(_s, _f):
    raise CaseTimeout()


def classify_exception(e):
    """'violation' if the exception travelled through the code under test, else 'harness'."""
    tb = e.__traceback__
    seen = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(os.path.join(REPO, "causy")):
            seen = True
        tb = tb.tb_next
    if seen:
        return "violation"
    for chained in (e.__cause__, e.__context__):
        if chained is not None and classify_exception(chained) == "violation":
            return "violation"
    return "harness"


class Outcome:
    def __init__(self, status, message="", trace=None, tb=""):
        self.status = status  # ok | discard | violation | harness
        self.message, self.trace, self.tb = message, trace, tb


def reset_global_state():
    random.seed(12345)
    try:
        import numpy
        import torch

        numpy.random.seed(12345)
        torch.manual_seed(12345)
    except ImportError:
        pass


def run_case(sub, case):
    """Evaluate one case; never raises for Exceptions of the case."""
    t = Trace()
    reset_global_state()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.timeout)
    try:
        try:
            sub.evaluate(case, t)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return Outcome("ok", trace=t)
    except Discard as e:
        return Outcome("discard", str(e), t)
    except Violation as e:
        return Outcome("violation", str(e), t)
    except CaseTimeout as e:
        where = "".join(traceback.format_tb(e.__traceback__)[-3:])
        if classify_exception(e) == "violation":
            return Outcome(
                "violation",
                f"did not terminate within {sub.timeout} s on a case that normally takes milliseconds",
                t, where)
        return Outcome("harness", "harness case timeout", t, where)
    except Exception as e:  # noqa
        k = classify_exception(e)
        tb = "".join(traceback.format_exception(e)[-8:])
        return Outcome(k, f"unexpected {type(e).__name__}: {short(str(e))}", t, tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def case_key(sub, case):
    return hashlib.sha1((sub.name + json.dumps(case, sort_keys=True)).encode()).hexdigest()


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = {}
        self.truncated = []
        self.per_sub = {}

    def add(self, sub, case, out):
        self.evaluations += 1
        ps = self.per_sub.setdefault(sub.name, {"evaluations": 0, "nontrivial": 0, "discarded": 0})
        ps["evaluations"] += 1
        if out.status == "discard":
            self.discarded += 1
            ps["discarded"] += 1
            return
        tr = out.trace
        for l in tr.labels:
            k = f"{sub.name}:{l}"
            self.labels[k] = self.labels.get(k, 0) + 1
        if tr.is_nontrivial:
            key = case_key(sub, case)
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                ps["nontrivial"] += 1
                s = self.samples.setdefault(sub.name, [])
                if len(s) < 2:
                    txt = json.dumps(case)
                    s.append(case if len(txt) < 3000 else txt[:3000])


def to_json_case(x):
    """Normalise a drawn value to what a replay file would hold."""
    return json.loads(json.dumps(x))


def run_sub(sub, tier, seed, shard, nshards, stats, deadline):
    """Run one sub-check's share; returns None or (case, Outcome)."""
    if sub.kind == "enumerated":
        for i, case in enumerate(sub.cases(tier)):
            if i % nshards != shard:
                continue
            if time.time() > deadline:
                stats.truncated.append(sub.name)
                return None
            case = to_json_case(case)
            out = run_case(sub, case)
            if out.status in ("violation", "harness"):
                return case, out
            stats.add(sub, case, out)
        return None

    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    total = sub.count(tier)
    n = total // nshards + (1 if shard < total % nshards else 0)
    if n == 0:
        return None
    st_seed = int(hashlib.sha1(f"{seed}/{shard}/{sub.name}".encode()).hexdigest()[:12], 16)
    best = {}
    state = {"t_fail": None, "trunc": False}
    shrink_budget = 25 if tier == "quick" else 120

    def prop(case):
        now = time.time()
        if state["t_fail"] is not None and now - state["t_fail"] > shrink_budget:
            raise StopShrinking()
        if state["t_fail"] is None and now > deadline:
            state["trunc"] = True
            return
        case = to_json_case(case)
        out = run_case(sub, case)
        if out.status in ("violation", "harness"):
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            txt = json.dumps(case)
            # prefer violations over harness errors; then the smaller case
            key = (out.status != "violation", len(txt))
            if "key" not in best or key <= best["key"]:
                best.update(key=key, case=case, out=out)
            if out.status == "harness":
                raise RuntimeError("harness error: " + out.message)
            raise Violation(out.message)
        if state["t_fail"] is None:
            stats.add(sub, case, out)

    test = hypothesis.given(sub.strategy())(prop)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
    )(test)
    test = hypothesis.seed(st_seed)(test)
    try:
        test()
    except (StopShrinking, Exception) as e:
        if not best:
            tb = "".join(traceback.format_exception(e)[-8:])
            return None_case(e), Outcome("harness", f"{type(e).__name__}: {e}", Trace(), tb)
    if state["trunc"]:
        stats.truncated.append(sub.name)
    if best:
        return best["case"], best["out"]
    return None


def None_case(_e):
    return None
