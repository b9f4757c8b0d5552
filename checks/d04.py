"""D04: transactional streaming position (PlannerProtocol.tla, PlanTransaction.tla)."""
import json
import os

from vlib import ds, env, plan, report, session, stamp, tlc, traces

PID = "D04"


def model(check):
    grid = [([2, 1, 2], [False] * 3, 0), ([2, 2], [True, False], 0), ([1, 2, 1], [False, True, False], 1),
            ([3, 2], [False, True], 2)]
    if check.thorough:
        grid += [([2, 2, 2, 2], [False, True, False, True], 1), ([4, 3, 2], [False] * 3, 3), ([1] * 5, [True] * 5, 2)]
    for lens, known, ahead in grid:
        result = tlc.run(
            check.tmp, "PlannerProtocol",
            constants=dict(Lens=lens, Known=known, Ahead=ahead, MaxOps=0, Gen=False),
            invariants=["PrefixAccepted", "OthersRefused", "LastExact", "Consecutive", "CommittedGiven"],
            properties=["Refines"], workers=4, timeout=600)
        check.tlc(result, f"PlannerProtocol {lens}")


def schedules(check):
    length = 7 if check.thorough else 6
    result = tlc.run(check.tmp, "PlannerProtocol",
                     constants=dict(Lens=[2, 1, 2, 2], Known=[False] * 4, Ahead=0, MaxOps=length, Gen=True),
                     invariants=["PrintDone"], workers=4, timeout=600, heap="4g")
    check.tlc(result, "PlannerProtocol schedules")
    found = sorted({json.dumps(h) for h in result.printed})
    check.note("tlc_schedules", len(found))
    return [json.loads(h) for h in found]


def random_ops(rng, length):
    ops = []
    for _ in range(length):
        kind = rng.choices(["next", "commit", "rollback", "save", "load"], [8, 5, 1.2, 1.2, 0.9])[0]
        ops.append({"op": kind, "n": rng.choice([1, 1, 2, 3, 9])})
    return ops


def configurations(check, root):
    """(fixture, kwargs, batch size): epochs of few batches, so that they are crossed often."""
    rng = check.rng
    out = []
    for fixture in ds.standard_fixtures(root, rng):
        if not fixture.build(ds.context(2))._build_partitioned_stream().capabilities.resumable:
            continue
        pipelines = [None, {"verif_stamp": {}}]
        for shuffle in (True, False):
            kwargs = dict(shuffle=shuffle)
            if shuffle:
                kwargs["shuffle_window_size"] = rng.choice([2, 5, 9, 200])
            if rng.random() < 0.35:
                kwargs["steps_per_epoch"] = rng.randint(1, 3)
            if fixture.dataset_type == "batched_processed_katago_numpy":
                kwargs["prefetch_threads"] = rng.choice([0, 1, 3])
                kwargs["prefetch_batches"] = rng.choice([1, 2, 5])
            pipeline = rng.choice(pipelines)
            if pipeline:
                kwargs["pipeline_args"] = pipeline
            if rng.random() < 0.5 and fixture.dataset_type != "iterative_multi":
                kwargs["apply_symmetry"] = True
            out.append((fixture, kwargs, rng.choice([3, 4, 5]), rng.randint(0, 99)))
            if shuffle:
                # one of several ranks; sources without random access need a budget
                world = rng.choice([2, 3]) if len(fixture.paths) >= 3 else 2
                out.append((fixture, dict(kwargs, world=world, rank=rng.randrange(world),
                                          steps_per_epoch=rng.randint(1, 3)), 2, rng.randint(0, 99)))
    big = ds.npz_fixture(os.path.join(root, "big"), rng, "iterative_processed_katago_numpy",
                         [(5, 1300), (5, 900), (5, 700)])
    out.append((big, dict(shuffle=True, shuffle_window_size=300), 290, 5))
    for index in range(16 if not check.thorough else 60):
        kinds = rng.choice([1, 2, 3])
        n = rng.choice([9, 14, 22])
        shapes = [rng.randint(1, kinds) for _ in range(n)]
        chunked = rng.random() < 0.6
        zero = chunked and rng.random() < 0.4
        limit = None if zero or rng.random() < 0.6 else rng.choice([7, 12])
        sizes = [rng.randint(0, 4) for _ in range(n)] if limit else [0] * n

        def order(epoch, cycle, ids, salt=index):
            import random
            ids = list(ids)
            random.Random(f"{salt}:{epoch}:{cycle}").shuffle(ids)
            return ids

        fixture = plan.MemFixture(shapes, chunked=chunked, zero=zero, sizes=sizes, declare=rng.random() < 0.6,
                                  payload=rng.random() < 0.5, order=order)
        kwargs = dict(shuffle=rng.random() < 0.75, shuffle_window_size=rng.choice([1, 3, 6, 50]),
                      shuffle_buffer_bytes=limit)
        if rng.random() < 0.3:
            kwargs["steps_per_epoch"] = rng.randint(1, 3)
        if rng.random() < 0.5:
            kwargs["prefetch_workers"] = rng.choice([1, 2])
            kwargs["prefetch_batches"] = rng.choice([1, 2, 4])
        out.append((fixture, kwargs, rng.choice([2, 3, 4]), rng.randint(0, 99)))
        if rng.random() < 0.4:
            out.append((fixture, dict(kwargs, composer=True), 3, rng.randint(0, 99)))
    return out


def maker(fixture, kwargs, batch, seed):
    def make():
        options = dict(kwargs)
        if options.pop("composer", None):
            from dataset.core import PipelineStateComposer
            options["composer"] = PipelineStateComposer([stamp.register()()])
        world, rank = options.pop("world", 1), options.pop("rank", 0)
        return fixture.build(ds.context(batch, world, rank, seed=seed), **options)
    return make


def foreign(check, fixture, kwargs, batch, seed, state):
    """A position must not load under another configuration."""
    variants = [("seed", kwargs, batch, seed + 1), ("batch size", kwargs, batch + 1, seed)]
    variants.append(("shuffling", dict(kwargs, shuffle=not kwargs.get("shuffle")), batch, seed))
    if kwargs.get("shuffle"):
        variants.append(("window", dict(kwargs, shuffle_window_size=kwargs.get("shuffle_window_size", 9) + 1), batch, seed))
    variants.append(("budget", dict(kwargs, steps_per_epoch=(kwargs.get("steps_per_epoch") or 0) + 5), batch, seed))
    events = []
    for name, options, size, number in variants:
        raised = ""
        try:
            dataset = maker(fixture, options, size, number)()
            dataset._build_partitioned_stream().load_state_dict(session.disk_roundtrip(state))
        except Exception as exc:
            raised = repr(exc)[:200]
        events.append({"op": "foreign", "raised": raised, "what": name})
    return events


def body(check):
    model(check)
    env.activate(check.tmp)
    stamp.register()
    plans = schedules(check)
    rng = check.rng
    rng.shuffle(plans)
    configs = configurations(check, os.path.join(check.tmp, "data"))
    per = 45 if check.thorough else 9
    cases, lengths, raw = [], [], []
    cursor = 0
    for fixture, kwargs, batch, seed in configs:
        make = maker(fixture, kwargs, batch, seed)
        plan.set_chunk(1024)
        info = {"dataset": fixture.name, "batch": batch, "seed": seed, **kwargs}
        try:
            with report.limit(60):
                ref = session.reference(fixture, make, 4)
        except RuntimeError as exc:
            if "no global batch" in str(exc):
                continue
            check.violation("an uninterrupted run failed", repr(exc), info)
            continue
        except Exception as exc:
            check.violation("an uninterrupted run failed", repr(exc), info)
            continue
        for index in range(per):
            if index % 3 == 2:
                ops = random_ops(rng, rng.choice([12, 25, 40]))
            else:
                ops = plans[cursor % len(plans)]
                cursor += 1
            plan.set_chunk(rng.choice([2, 3, 5, 9, 1024]))
            with report.limit(60):
                events = session.replay(fixture, make, ops, len(ref) - 1, rng, misuse=0.15)
            cases.append({"ref": ref, "events": events})
            lengths.append(len(events) + 1)
            raw.append({**info, "ops": [f"{o['op']}{o['n'] or ''}" for o in ops], "events": events})
        plan.set_chunk(1024)
        # a saved position under another configuration
        dataset = make()
        planner = dataset._build_partitioned_stream()
        iterator = iter(dataset)
        planner.commit_batch(next(iterator).token)
        state = planner.state_dict()
        iterator.close()
        events = foreign(check, fixture, kwargs, batch, seed, state)
        cases.append({"ref": ref, "events": events})
        lengths.append(len(events) + 1)
        raw.append({**info, "ops": ["foreign"], "events": events})

    def judge(start, part):
        def on_error(item):
            entry = raw[start + item["case"] - 1]
            event = entry["events"][item["step"] - 1]
            check.violation(item["clause"], json.dumps(event)[:600], {**entry, "step": item["step"]})
        traces.validate(check, "PlanTransactionTrace", part, lengths=lengths[start:start + len(part)],
                        label=f"plan-{start}", on_error=on_error, constants=dict(Total=0))

    for start in range(0, len(cases), 600):
        judge(start, cases[start:start + 600])
    check.sample({k: v for k, v in raw[0].items() if k != "events"})


report.main(PID, body)
