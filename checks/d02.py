"""D02: what one epoch delivers (EpochPlan.tla, EpochPlanTrace.tla)."""
import os

from vlib import ds, env, plan, report, tlc, traces

PID = "D02"
INVARIANTS = ["AtMostOnce", "Homogeneous", "FullBatches", "OnlyEvalPads", "PaddingIsCopy", "LastIsLast",
              "LastMarked", "WithinBudget", "Leftover", "CycleOrder", "Ahead", "PlanAhead", "FifoPlan"]


def model(check):
    grid = [
        (5, [1, 2, 1, 1, 2], 2, 2, True, 0), (5, [1, 2, 1, 1, 2], 3, 2, False, 0),
        (5, [1, 2, 1, 3, 2], 2, 3, False, 2), (6, [1] * 6, 3, 2, True, 2), (6, [1, 1, 2, 1, 2, 2], 1, 2, False, 0),
        (6, [1, 1, 2, 1, 2, 2], 3, 2, True, 2),
    ]
    if check.thorough:
        grid += [(7, [1, 2, 1, 3, 2, 1, 2], 3, 2, False, 0), (8, [1, 2] * 4, 3, 3, True, 0),
                 (8, [1] * 8, 4, 3, False, 0), (7, [1, 2, 1, 2, 3, 3, 3], 4, 2, False, 3)]
    for n, shapes, w, b, train, budget in grid:
        result = tlc.run(check.tmp, "EpochPlan", constants=dict(
            N=n, ShapeOf=shapes, W=w, B=b, Train=train, Budget=budget, Sharded=False),
            invariants=INVARIANTS, workers=4, timeout=600)
        check.tlc(result, f"EpochPlan N={n} W={w} B={b}")


class Collector:
    def __init__(self, check):
        self.check, self.cases, self.lengths, self.raw = check, [], [], []

    def add(self, case, raw):
        self.cases.append(case)
        self.lengths.append(len(case["batches"]) + 2)
        self.raw.append(raw)


EMPTY = "no global batch"


def one(check, collector, fixture, kwargs, batch, seed, mode, epochs, info):
    ctx = ds.context(batch, seed=seed, mode=mode)
    info = {"dataset": fixture.name, "mode": mode, "batch": batch, "seed": seed, **kwargs, **info}
    plan.set_chunk(check.rng.choice([2, 5, 1024]))
    try:
        arr = plan.arrivals(fixture, ctx, kwargs, epochs)
    except Exception as exc:
        check.violation("reading the records in order failed", repr(exc), info)
        return

    def attempt(context, count):
        try:
            with report.limit(60):
                return plan.run_epochs(fixture, fixture.build(context, **kwargs), count)
        except RuntimeError as exc:
            if EMPTY in str(exc):
                return None
            check.violation("an ordinary epoch failed", repr(exc), info)
            return False
        except Exception as exc:
            check.violation("an ordinary epoch failed", repr(exc), info)
            return False

    got = attempt(ctx, epochs)
    if got is False:
        return
    plan.set_chunk(check.rng.choice([3, 7, 1024]))
    again = attempt(ctx, epochs)
    shuffle = bool(kwargs.get("shuffle"))
    window = int(kwargs.get("shuffle_window_size", 32768)) if shuffle else 1
    rows = [[b["rows"] for b in e] for e in got] if got else []
    other_seed = attempt(ds.context(batch, seed=seed + 1, mode=mode), 1) if shuffle and got else None
    for epoch in range(epochs):
        batches = got[epoch] if got else []
        seq = arr[epoch][0]
        budget = kwargs.get("steps_per_epoch") or 0
        shapes = plan.shape_list(fixture)
        counts = {}
        for i in seq:
            if i:
                counts[shapes[i - 1]] = counts.get(shapes[i - 1], 0) + 1
        full = sum((c // batch) if mode == "train" else -(-c // batch) for c in counts.values())
        others = []
        if shuffle and window >= 3 and len(seq) >= 14 and len(batches) >= 2 and len(batches) * batch >= 12:
            others = [r for k, r in enumerate(rows) if k != epoch]
            if epoch == 0 and other_seed:
                others.append([b["rows"] for b in other_seed[0]])
        collector.add({
            "b": batch, "w": window, "train": mode == "train", "budget": budget, "fifo": not shuffle,
            "sharded": False, "window": shuffle and not kwargs.get("shuffle_buffer_bytes"),
            "enough": full >= budget, "arr": [seq], "all": sorted(set(seq)), "shape": shapes,
            "batches": batches, "ended": True, "others": others,
            "again": [b["rows"] for b in again[epoch]] if again else [],
        }, {**info, "epoch": epoch})
        if sorted(set(seq)) != sorted(seq) or 0 in seq:
            check.violation("the record source repeats or invents records", seq, info)
        if fixture_complete(fixture) and set(seq) != set(range(1, len(fixture.records) + 1)):
            check.violation("the record source leaves records out", seq, info)


def fixture_complete(fixture):
    return fixture.name != "multi-sync"


def synthetic(check, collector):
    rng = check.rng
    for index in range(260 if check.thorough else 90):
        kinds = rng.choice([1, 1, 2, 3, 4])
        n = rng.choice([0, 1, 3, 8, 14, 21, 35])
        shapes = [rng.randint(1, kinds) * 7 for _ in range(n)]
        chunked = rng.random() < 0.6
        zero = chunked and rng.random() < 0.5
        limit = None
        sizes = [0] * n
        if not zero and rng.random() < 0.4:
            sizes = [rng.randint(0, 5) for _ in range(n)]
            limit = rng.choice([5, 9, 14])

        def order(epoch, cycle, ids, salt=rng.randint(0, 99)):
            import random
            ids = list(ids)
            random.Random(f"{salt}:{epoch}:{cycle}").shuffle(ids)
            return ids

        fixture = plan.MemFixture(shapes, chunked=chunked, zero=zero, sizes=sizes, payload=rng.random() < 0.3,
                                  declare=bool(n) and rng.random() < 0.7, order=order,
                                  resumable=rng.random() < 0.7)
        batch = rng.choice([1, 2, 3, 5, 8])
        kwargs = dict(shuffle=rng.random() < 0.7, shuffle_window_size=rng.choice([1, 2, 3, 5, 9, 64]))
        if limit:
            kwargs["shuffle_buffer_bytes"] = limit
        if rng.random() < 0.3:
            kwargs["steps_per_epoch"] = rng.randint(1, 6)
        one(check, collector, fixture, kwargs, batch, rng.randint(0, 999),
            rng.choice(["train", "validate"]), rng.choice([1, 2, 3]), {"index": index, "shapes": shapes})


def real(check, collector, root):
    rng = check.rng
    fixtures = ds.standard_fixtures(root, rng)
    for fixture in fixtures:
        for mode in ("train", "validate"):
            for shuffle in (True, False):
                for _ in range(3 if check.thorough else 1):
                    kwargs = dict(shuffle=shuffle)
                    if shuffle:
                        kwargs["shuffle_window_size"] = rng.choice([1, 3, 7, 100])
                    if rng.random() < 0.25:
                        kwargs["steps_per_epoch"] = rng.randint(1, 4)
                    if fixture.dataset_type == "batched_processed_katago_numpy":
                        kwargs["prefetch_threads"] = rng.choice([0, 2])
                        kwargs["prefetch_batches"] = rng.choice([1, 3])
                    one(check, collector, fixture, kwargs, rng.choice([2, 3, 4, 5]), rng.randint(0, 999),
                        mode, 2, {})


def map_fixtures(root, rng):
    found = []
    for number, (kind, files) in enumerate([
        ("processed_katago_numpy", [(5, 7), (5, 4)]), ("katago_numpy", [(6, 6), (6, 9)]),
        ("processed_katago_numpy", [(5, 1)]),
    ]):
        fixture = ds.npz_fixture(os.path.join(root, f"map{number}"), rng, kind, files)
        fixture.name = f"map-{kind}-{number}"
        found.append(fixture)
    children = [ds.npz_fixture(os.path.join(root, f"mapc{k}"), rng, kind, files) for k, (kind, files) in enumerate([
        ("processed_katago_numpy", [(5, 7)]), ("katago_numpy", [(6, 5)]), ("katago_numpy", [(5, 6), (5, 2)])])]
    multi = ds.multi_fixture(children, [1, 1, 1], False)
    for options in multi.kwargs["dataset_dict"].values():
        options.pop("blend_ratio")
    multi.kwargs.pop("sync_length")
    multi.dataset_type, multi.name = "multi", "map-multi"
    found.append(multi)
    return found


def map_evaluation(check, collector, root):
    """Map-style datasets evaluated through the masked-tail planner."""
    for fixture in map_fixtures(root, check.rng):
        for batch in (1, 2, 3, 4, 5, 30):
            info = {"dataset": fixture.name, "batch": batch}
            try:
                dataset = fixture.build(ds.context(batch, mode="validate"))
                runs = [[plan.observe(fixture, e) for e in dataset] for _ in range(2)]
            except Exception as exc:
                check.violation("an ordinary evaluation pass failed", repr(exc), info)
                continue
            ids = list(range(1, len(fixture.records) + 1))
            for batches in runs:
                collector.add({
                    "b": batch, "w": 1, "train": False, "budget": 0, "fifo": False, "sharded": False,
                    "window": False, "enough": True, "arr": [ids], "all": ids,
                    "shape": plan.shape_codes(fixture), "batches": batches, "ended": True, "others": [],
                    "again": [b["rows"] for b in runs[0]],
                }, info)


def body(check):
    model(check)
    env.activate(check.tmp)
    collector = Collector(check)
    real(check, collector, os.path.join(check.tmp, "data"))
    synthetic(check, collector)
    map_evaluation(check, collector, os.path.join(check.tmp, "data"))

    def on_error(item):
        check.violation(item["clause"], f"batch {item['step']}",
                        {"case": collector.raw[item["case"] - 1], "observed": collector.cases[item["case"] - 1]})

    traces.validate(check, "EpochPlanTrace", collector.cases, lengths=collector.lengths, label="epoch",
                    on_error=on_error, constants=dict(N=0, ShapeOf=[], W=1, B=1, Train=True, Budget=0, Sharded=False))
    check.note("epochs", len(collector.cases))
    check.sample(collector.raw[0])
    check.sample(collector.raw[-1])


report.main(PID, body)
