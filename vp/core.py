"""Shared machinery: sub-checks, violations, generated-case accounting."""
import contextlib
import dataclasses
import hashlib
import json
import math
import os
import signal
import time
from typing import Any, Callable, Iterable, List, Optional

from . import boot


class Violation(AssertionError):
    """The property is broken on the current case (never raised for harness trouble)."""


class StopShrink(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def sut(what: str):
    """Code under test runs in here on in-domain input: any exception it raises breaks the property."""
    try:
        yield
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:400]}") from e


def rejects(fn, what, kinds=Exception):
    """The documented reaction to this input is an error."""
    try:
        out = fn()
    except kinds:
        return
    except Exception as e:
        raise Violation(f"{what}: expected {kinds}, got {type(e).__name__}: {e}")
    raise Violation(f"{what}: accepted, returned {str(out)[:200]!r}")


def close(a, b, rtol=1e-9, atol=0.0):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(atol, rtol * max(abs(a), abs(b)))


def raised_by_repo(e):
    """Whether the exception comes from the code under test (or a library it called) rather than from the harness."""
    owner, tb, src, harness = None, e.__traceback__, os.path.realpath(boot.SRC), os.path.realpath(boot.VERIF)
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(src + os.sep):
            owner = "repo"
        elif f.startswith(harness + os.sep):
            owner = "harness"
        tb = tb.tb_next
    return owner == "repo"


def unusable_result(e: BaseException) -> bool:
    """The oracle choked on a value the code under test produced: a None, a missing entry, an odd shape.

    A name or a parameter the harness expects and the code no longer has is not that: it stays a harness error.
    """
    if isinstance(e, (IndexError, KeyError, ValueError)):
        return True
    if isinstance(e, TypeError):
        return "argument" not in str(e)
    return isinstance(e, AttributeError) and "object has no attribute" in str(e)


CASE_CPU_S = dict(quick=150.0, thorough=1200.0)


class Hang(BaseException):
    """One case has used up its processor time inside the code under test."""


def inside_repo(frame) -> bool:
    src = os.path.realpath(boot.SRC) + os.sep
    while frame is not None:
        if os.path.realpath(frame.f_code.co_filename).startswith(src):
            return True
        frame = frame.f_back
    return False


class Watch:
    """Ends a case that loops forever in the code under test; measured in processor time, so load does not matter."""
    def __init__(self, limit: float):
        self.limit = limit

    def expired(self, _sig, frame):
        if inside_repo(frame):
            raise Hang()
        signal.setitimer(signal.ITIMER_PROF, 10)

    def __enter__(self):
        signal.signal(signal.SIGPROF, self.expired)
        signal.setitimer(signal.ITIMER_PROF, self.limit)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, 0)


class Ctx:
    """Per-case annotations used for the evidence file."""
    def __init__(self, tier):
        self.tier = tier
        self.labels: List[str] = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True


@dataclasses.dataclass
class Sub:
    """One executable check: JSON-able cases from `strategy` (random) and `explicit` (enumerated)."""
    name: str
    check: Callable[[Any, Ctx], None]
    strategy: Any = None
    quick: int = 0
    thorough: int = 0
    explicit: Optional[Callable[[str], Iterable[Any]]] = None


@dataclasses.dataclass
class Prop:
    id: str
    rule: str
    subs: List[Sub]
    assumptions: List[str] = dataclasses.field(default_factory=list)
    level: str = "exploration"


def case_hash(sub: str, case) -> str:
    return hashlib.sha1((sub + json.dumps(case, sort_keys=True, default=str)).encode()).hexdigest()[:16]


class ShardRun:
    def __init__(self, prop: Prop, tier: str, seed: int, shard: int, shards: int, budget_s: float):
        self.prop, self.tier, self.seed, self.shard, self.shards = prop, tier, seed, shard, shards
        self.t_end = time.monotonic() + budget_s
        self.out = dict(evaluations=0, subs={}, labels={}, hashes=[], samples=[], skipped=0, slowest=0.0, violation=None)
        self._hashes = set()

    def one(self, sub: Sub, case, count=True):
        ctx = Ctx(self.tier)
        t0 = time.process_time()
        try:
            with Watch(CASE_CPU_S[self.tier]):
                sub.check(case, ctx)
        except Violation:
            raise
        except Hang:
            v = Violation(f"still running after {CASE_CPU_S[self.tier]:.0f} s of processor time")
            v.hang = True
            raise v from None
        except Exception as e:
            if raised_by_repo(e):
                raise Violation(f"raised {type(e).__name__}: {str(e)[:400]}") from e
            if unusable_result(e):
                raise Violation(f"returned something unusable ({type(e).__name__}: {str(e)[:400]})") from e
            raise
        finally:
            self.out["slowest"] = max(self.out["slowest"], time.process_time() - t0)
            if count:
                o = self.out
                o["evaluations"] += 1
                o["subs"][sub.name] = o["subs"].get(sub.name, 0) + 1
                for l in ctx.labels:
                    k = f"{sub.name}:{l}"
                    o["labels"][k] = o["labels"].get(k, 0) + 1
                if ctx.nontrivial:
                    h = case_hash(sub.name, case)
                    if h not in self._hashes:
                        self._hashes.add(h)
                        n_here = sum(1 for s in o["samples"] if s["check"] == sub.name)
                        if n_here < 2 and len(json.dumps(case, default=str)) < 1500:
                            o["samples"].append({"check": sub.name, "case": case, "labels": ctx.labels[:8]})

    def over(self):
        return time.monotonic() > self.t_end

    def run(self):
        for sub in self.prop.subs:
            if self.out["violation"]:
                break
            if sub.explicit is not None:
                self.run_explicit(sub)
            if self.out["violation"]:
                break
            n = sub.quick if self.tier == "quick" else sub.thorough
            if sub.strategy is not None and n:
                self.run_random(sub, max(1, -(-n // self.shards)))
        self.out["hashes"] = sorted(self._hashes)
        return self.out

    def run_explicit(self, sub: Sub):
        for case in list(sub.explicit(self.tier))[self.shard::self.shards]:
            if self.over():
                self.out["skipped"] += 1
                continue
            try:
                self.one(sub, case)
            except Violation as v:
                self.out["violation"] = dict(sub=sub.name, case=case, message=str(v))
                return

    def run_random(self, sub: Sub, n: int):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        state = dict(fail=None, t_shrink=None)

        def body(case):
            failing = state["fail"] is not None
            if not failing and self.over():
                self.out["skipped"] += 1
                return
            if failing and time.monotonic() > state["t_shrink"]:
                raise StopShrink()
            try:
                self.one(sub, case, count=not failing)
            except Violation as v:
                if not failing:
                    state["t_shrink"] = time.monotonic() + float(os.environ.get("VERIF_SHRINK_S", 45 if self.tier == "quick" else 240))
                state["fail"] = dict(sub=sub.name, case=case, message=str(v))
                if getattr(v, "hang", False):
                    raise StopShrink() from None     # every attempt to shrink it could take as long
                raise

        test = given(sub.strategy)(body)
        test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink])(test)
        digest = hashlib.sha1(f"{self.seed}/{self.prop.id}/{sub.name}/{self.shard}".encode()).digest()
        test = hypothesis.seed(int.from_bytes(digest[:6], "big"))(test)
        try:
            test()
        except (Violation, StopShrink):
            self.out["violation"] = state["fail"]
        except hypothesis.errors.Flaky:
            if state["fail"] is None:
                raise
            self.out["violation"] = state["fail"]
