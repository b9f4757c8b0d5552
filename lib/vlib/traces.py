"""Batch trace validation: many recorded executions judged by one TLC run."""
import json
import os

from . import tlc


def validate(check, module, cases, *, lengths, label, on_error, init="TInit", next_="TNext",
             constants=None, workers=6, timeout=600, heap="4g", env=None):
    """Judge recorded cases with a *Trace module.

    Every state of the run prints a record when its `err` is non-empty, so the
    verdict of each execution is total and names the failing clause.  When
    nothing failed, the number of distinct states must be exactly the number the
    recorded steps imply - a trace that was silently not consumed is an error of
    the check, never a pass.
    """
    if not cases:
        raise RuntimeError(f"{label}: no recorded executions")
    path = os.path.join(check.tmp, f"trace-{label}.json")
    with open(path, "w") as stream:
        json.dump(cases, stream)
    result = tlc.run(
        check.tmp, module, init=init, next_=next_, constants=constants or {},
        invariants=["Report"], workers=workers, timeout=timeout, heap=heap,
        env={"TRACE_FILE": path, **(env or {})},
    )
    if not result.ok:
        raise RuntimeError(f"{label}: {result.violated}\n{result.output[-3000:]}")
    seen = set()
    for item in result.printed:
        key = json.dumps(item, sort_keys=True)
        if key not in seen:
            seen.add(key)
            on_error(item)
    if not seen and result.distinct != sum(lengths):
        raise RuntimeError(
            f"{label}: {result.distinct} states for {sum(lengths)} expected; "
            "some trace was not consumed\n" + result.output[-2000:]
        )
    check.validated(result, len(lengths))
    os.unlink(path)
    return result


def evaluate(check, module, inputs, *, expr="Answers", label="eval", constants=None,
             timeout=600, heap="4g", env=None, definitions=""):
    """Evaluate a specification operator over recorded inputs (the oracle)."""
    path = os.path.join(check.tmp, f"in-{label}.json")
    out = os.path.join(check.tmp, f"out-{label}.json")
    with open(path, "w") as stream:
        json.dump(inputs, stream)
    result = tlc.run(
        check.tmp, module, constants=constants or {},
        init="EvalInit", next_="EvalNext", workers=1, timeout=timeout, heap=heap,
        definitions=definitions + "\nVARIABLE evalDone\n"
        f"EvalInit == evalDone = JsonSerialize(IOEnv.OUT_FILE, {expr})\n"
        "EvalNext == FALSE /\\ UNCHANGED evalDone",
        env={"TRACE_FILE": path, "OUT_FILE": out, **(env or {})},
    )
    if not result.ok or not os.path.exists(out):
        raise RuntimeError(f"{label}: {result.violated}\n{result.output[-3000:]}")
    answers = json.load(open(out))
    os.unlink(path)
    os.unlink(out)
    return answers
