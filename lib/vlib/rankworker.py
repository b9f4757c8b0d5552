"""Child process: the streams of one rank, under its own hash seed and directory order.

usage: rankworker.py RANK JOBS OUT
"""
import os
import pickle
import random
import sys
import tempfile
import traceback

rank, jobs_path, out_path = int(sys.argv[1]), sys.argv[2], sys.argv[3]

# Another machine enumerates directories in another order.
order = random.Random(rank + 100)
_listdir, _scandir = os.listdir, os.scandir


def listdir(*args):
    found = _listdir(*args)
    order.shuffle(found)
    return found


class _Scan:
    def __init__(self, *args):
        with _scandir(*args) as entries:
            self.entries = list(entries)
        order.shuffle(self.entries)
        self.at = iter(self.entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.at)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        pass


from vlib import ds, env, plan, report, session, stamp  # noqa: E402

env.activate(tempfile.mkdtemp(dir=os.path.dirname(out_path)))
stamp.register()
import dataset  # noqa: E402,F401  (imports use the ordinary enumeration)


def observe(fixture, envelope):
    seen = plan.observe(fixture, envelope)
    seen["digs"] = session.row_digests(envelope.data, len(seen["rows"]))
    return seen


def work(job):
    fixture, kwargs = job["fixture"], dict(job["kwargs"])
    world = job["world"]
    ctx = ds.context(job["local"], world, rank, seed=job["seed"], mode=job["mode"])
    plan.set_chunk(job["chunk"])
    out = dict(batches=[], descs=[], shard=[], bytes=0, state="", coord="", foreign=True)
    built = fixture.build(ctx, **kwargs)
    if job["kind"] == "map":
        out["batches"] = [observe(fixture, e) for e in built]
        return out
    planner = built._build_partitioned_stream()
    train = job["mode"] == "train"
    for _ in range(job["epochs"]):
        for envelope in built:
            out["batches"].append(observe(fixture, envelope))
            out["descs"].append(repr(envelope.token.coordination_descriptor))
            if train:
                planner.commit_prepared(planner.prepare_commit([envelope.token]))
    if planner.capabilities.resumable and train:
        coord = planner.coordination_state_dict()
        out["coord"] = session.canonical(coord).hex() if coord is not None else ""
        state = planner.state_dict()
        if job["kind"] == "replicated":
            out["state"] = session.canonical(state).hex()
        else:
            out["saved"] = session.disk_roundtrip(state)
    if job["kind"] == "sharded":
        arr = plan.arrivals(fixture, ctx, kwargs, job["epochs"], job["cycles"])
        out["arr"] = arr
        out["shard"] = arr[0][0]
    return out


def main():
    with open(jobs_path, "rb") as stream:
        jobs = pickle.load(stream)
    os.listdir, os.scandir = listdir, _Scan
    results = []
    for job in jobs:
        if rank >= job["world"]:
            results.append(None)
            continue
        try:
            with report.limit(60):
                results.append(work(job))
        except Exception as exc:
            results.append({"error": repr(exc)[:500], "trace": traceback.format_exc()[-1500:]})
    with open(out_path, "wb") as stream:
        pickle.dump(results, stream)


main()
