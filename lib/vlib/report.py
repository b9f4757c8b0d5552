"""Verdicts, evidence and replay files of one check run."""
import ctypes
import json
import os
import contextlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .env import VERIF

KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Violation(Exception):
    def __init__(self, clause, detail, replay=None, key=None):
        super().__init__(f"{clause}: {detail}")
        self.clause, self.detail, self.replay, self.key = clause, detail, replay, key


class Hang(Exception):
    """The code under test did not come back within a generous limit."""


@contextlib.contextmanager
def limit(seconds):
    """Turn an endless loop of the code under test into an exception (main thread only)."""
    def expired(*_):
        raise Hang(f"no result within {seconds} s")
    previous = signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, previous)


def _jsonable(value, depth=0):
    if depth > 12:
        return repr(value)
    if isinstance(value, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in value.items()}
    if isinstance(value, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in value]
    if isinstance(value, (str, int, float, bool)) or value is None:
        return value
    return repr(value)


class Check:
    """Collects coverage and violations; prints the verdict the interface asks for."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{pid}:{self.seed}")
        self.start = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line:
                    self.known.append(json.loads(line))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.start

    def note(self, name, amount=1):
        self.extra[name] = self.extra.get(name, 0) + amount

    def sample(self, value, limit=4):
        if len(self.samples) < limit:
            self.samples.append(_jsonable(value))

    def tlc(self, result, what):
        """Account a model-checking run whose invariants must all hold."""
        self.states += result.distinct or result.generated
        self.transitions += result.generated
        self.note("tlc_runs")
        if not result.ok:
            # A broken model is an error of the check, never a verdict on the code.
            sys.stderr.write(result.output[-6000:] + "\n")
            raise RuntimeError(f"{what}: specification invariant failed: {result.violated}")

    def validated(self, result, count):
        """Account a trace-validation run (verdicts are read by the caller)."""
        self.states += result.distinct
        self.transitions += result.generated
        self.traces += count
        self.note("tlc_runs")

    def violation(self, clause, detail, replay=None, key=None):
        for entry in self.known:
            if (
                entry.get("status") == "known"
                and entry.get("property") == self.pid
                and key is not None
                and entry.get("key") == key
            ):
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print(f"KNOWN-FINDING: property={self.pid} {entry['what']}", flush=True)
                return
        index = len(self.violations) + 1
        if index <= 5:
            folder = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, f"{self.pid}-{index}.json")
            with open(path, "w") as stream:
                json.dump(
                    _jsonable({
                        "property": self.pid, "clause": clause, "detail": detail,
                        "seed": self.seed, "tier": self.tier, "case": replay,
                        "how": f"VERIF_SEED={self.seed} bash /verif/check.sh {self.pid} {self.tier}",
                    }),
                    stream, indent=1,
                )
            print(f"{self.pid}: {clause}: {str(detail)[:1500]}", flush=True)
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        self.violations.append(clause)

    def finish(self):
        coverage = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["no sample recorded"],
        }
        if self.evaluations:
            coverage["evaluations"] = self.evaluations
        for key, value in self.extra.items():
            coverage.setdefault(key, value)
        data = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": coverage, "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2), "violations": len(self.violations),
        }
        folder = os.path.join(VERIF, "evidence")
        os.makedirs(folder, exist_ok=True)
        temporary = os.path.join(folder, f".{self.pid}.{os.getpid()}.tmp")
        with open(temporary, "w") as stream:
            json.dump(_jsonable(data), stream, indent=1)
        os.replace(temporary, os.path.join(folder, f"{self.pid}.json"))
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(
            f"{self.pid} {self.tier}: {len(self.violations)} violation(s); "
            f"{self.states} states, {self.traces} traces, {self.elapsed():.1f}s", flush=True,
        )
        return 1 if self.violations else 0


def _outcome(check, child):
    """The verdict of the process that ran the check; native code that crashed it broke the property."""
    _, status = os.waitpid(child, 0)
    if not os.WIFSIGNALED(status):
        return os.WEXITSTATUS(status)
    number = os.WTERMSIG(status)
    if number in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        check.violation("the code under test crashed the process", signal.Signals(number).name, dict(signal=number))
        return check.finish()
    shutil.rmtree(check.tmp, ignore_errors=True)
    return 2


def main(pid, body, level="model_checking"):
    check = Check(pid, level)
    code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    child = os.fork()
    if child:
        os._exit(_outcome(check, child))
    ctypes.CDLL(None).prctl(1, signal.SIGTERM)  # PR_SET_PDEATHSIG
    try:
        try:
            body(check)
        except Violation as exc:
            check.violation(exc.clause, exc.detail, exc.replay, exc.key)
        code = check.finish()
    except BaseException:
        traceback.print_exc()
        if check.violations:
            # A demonstrated violation stands even when a later stage failed.
            code = check.finish()
        shutil.rmtree(check.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
