"""D01: the streaming shuffle buffer (Reservoir.tla, ReservoirTrace.tla)."""
import copy
import dataclasses
import json
import pickle

from vlib import env, report, tlc, traces

PID = "D01"


def model(check):
    configs = [
        (4, 1, 0, [0] * 4, 2), (5, 2, 0, [0] * 5, 3), (5, 3, 0, [0] * 5, 2),
        (5, 3, 3, [1, 2, 1, 3, 1], 2), (5, 4, 4, [2, 2, 1, 4, 1], 3),
    ]
    if check.thorough:
        configs += [(6, 3, 4, [1, 3, 2, 1, 4, 2], 3), (6, 4, 0, [0] * 6, 3), (7, 2, 0, [0] * 7, 2)]
    for n, cap, maxb, size, chunk in configs:
        result = tlc.run(
            check.tmp, "Reservoir",
            constants=dict(N=n, Cap=cap, MaxBytes=maxb, Size=size, MaxChunk=chunk, MaxSnaps=1, Gen=False),
            invariants=["ExactlyOnce", "Bounded", "Displacement", "ClosedIsEmpty",
                        "FifoWhenCapacityOne", "SnapConsistent"],
            properties=["EmissionStable"], workers=6, timeout=600,
        )
        check.tlc(result, f"Reservoir N={n} Cap={cap}")


def schedules(check):
    """Every call schedule of the small models (chunking x snapshot x restore)."""
    found = []
    grid = [(4, 2, 3, 1), (5, 2, 2, 1)]
    if check.thorough:
        grid += [(6, 3, 3, 1), (5, 2, 5, 2)]
    for n, cap, chunk, snaps in grid:
        result = tlc.run(
            check.tmp, "Reservoir",
            constants=dict(N=n, Cap=cap, MaxBytes=0, Size=[0] * n, MaxChunk=chunk,
                           MaxSnaps=snaps, Gen=True),
            invariants=["PrintDone"], workers=4, timeout=600,
        )
        check.tlc(result, "Reservoir schedules")
        unique = {json.dumps(h) for h in result.printed}
        found += [(n, json.loads(h)) for h in sorted(unique)]
    check.note("tlc_schedules", len(found))
    return found


def random_schedule(rng, n):
    ops, left, have = [], n, False
    while left:
        pick = rng.random()
        if pick < 0.12:
            ops.append({"op": "snap", "n": 0}); have = left
        elif pick < 0.18 and have is not False:
            ops.append({"op": "restore", "n": 0}); left = have
            have = False if rng.random() < 0.7 else have
        else:
            k = min(left, rng.choice([1, 1, 2, 3, 5, 8, 13, 40]))
            ops.append({"op": "offer", "n": k}); left -= k
    ops.append({"op": "drain", "n": 0})
    return ops


class Runner:
    """Push one item stream through one implementation / entry point."""

    def __init__(self, kind, cfg, sizes, base):
        from dataset.packed import PackedUInt64ShuffleReservoir
        from dataset.shuffle import StreamingShuffleReservoir
        self.kind, self.cfg, self.sizes, self.base = kind, cfg, sizes, base
        self.cls = PackedUInt64ShuffleReservoir if kind.startswith("packed") else StreamingShuffleReservoir
        self.obj = self.new()

    def new(self):
        args = dict(seed=self.cfg["seed"], epoch=self.cfg["epoch"], stream_key=self.cfg["stream_key"])
        if not self.kind.startswith("packed"):
            args["max_bytes"] = self.cfg["max_bytes"] or None
        return self.cls(self.cfg["cap"], **args)

    def encode(self, i):
        return self.base + i if self.kind.startswith("packed") else ("item", i)

    def decode(self, item):
        return int(item) - self.base if self.kind.startswith("packed") else item[1]

    def offer(self, items):
        import numpy as np
        from dataset.packed import PackedRecordBlock
        if self.kind.startswith("packed"):
            got = self.obj.offer_block(
                PackedRecordBlock(np.asarray([self.encode(i) for i in items], dtype=np.uint64)))
        elif self.kind == "many":
            got = self.obj.offer_many((self.encode(i), self.sizes[i - 1]) for i in items)
        elif self.kind == "zero":
            got = self.obj.offer_zero_sized(tuple(self.encode(i) for i in items))
        else:
            got = ()
            for i in items:
                got += tuple(self.obj.offer(self.encode(i), size_bytes=self.sizes[i - 1]))
        return [self.decode(x) for x in got]

    def stats(self):
        st = self.obj.stats
        return dict(offered=st.offered, emitted=st.emitted, occupancy=st.occupancy,
                    peak_occupancy=st.peak_occupancy, resident_bytes=st.resident_bytes,
                    peak_resident_bytes=st.peak_resident_bytes)


def execute(kind, cfg, sizes, base, ops, rng):
    run = Runner(kind, cfg, sizes, base)
    events, pos, saved = [], 0, None
    for op in ops:
        if op["op"] == "offer":
            items = list(range(pos + 1, pos + op["n"] + 1))
            if kind == "one":
                for i in items:
                    events.append({"op": "offer", "items": [i], "emitted": run.offer([i]), "stats": run.stats()})
            else:
                events.append({"op": "offer", "items": items, "emitted": run.offer(items), "stats": run.stats()})
            pos += op["n"]
            if cfg["max_bytes"] and kind in ("one", "many") and rng.random() < 0.2:
                # An item larger than the whole budget must be refused without effect.
                try:
                    big = cfg["max_bytes"] + 1
                    if kind == "one":
                        run.obj.offer(("item", -1), size_bytes=big)
                    else:
                        run.obj.offer_many([(("item", -1), 0), (("item", -2), big)])
                except ValueError:
                    pass
                events.append({"op": "rebuild", "closed": run.obj.closed, "stats": run.stats()})
        elif op["op"] == "drain":
            got = [run.decode(x) for x in run.obj.drain()]
            events.append({"op": "drain", "emitted": got, "stats": run.stats()})
        elif op["op"] == "snap":
            state = run.obj.state()
            saved = (pickle.loads(pickle.dumps(state)) if rng.random() < 0.5 else state, pos, len(events))
            if rng.random() < 0.5:
                # carry on from a rebuilt buffer while the old one keeps changing
                old, run.obj = run.obj, run.new()
                run.obj.restore(state)
                if not old.closed and pos < len(sizes):
                    old_run = copy.copy(run); old_run.obj = old
                    old_run.offer(list(range(pos + 1, min(pos + 4, len(sizes)) + 1)))
                    old.drain()
                events.append({"op": "rebuild", "closed": run.obj.closed, "stats": run.stats()})
        elif op["op"] == "restore":
            state, pos, count = saved
            run.obj = run.new()
            run.obj.restore(state)
            events = events[:count] + [{"op": "rebuild", "closed": run.obj.closed, "stats": run.stats()}]
    out = [i for e in events for i in e.get("emitted", ())]
    return events, out


def through_ready_buffer(events, base, rng):
    """The packed FIFO between the buffer and the batches must not reorder."""
    import numpy as np
    from dataset.packed import PackedUInt64ReadyBuffer
    ready, popped = PackedUInt64ReadyBuffer(), []

    def pop(k):
        popped.extend(int(x) - base for x in ready.pop(k))

    for event in events:
        values = np.asarray([base + i for i in event.get("emitted", [])], dtype=np.uint64)
        ready.extend(values)
        while len(ready) and rng.random() < 0.6:
            pop(rng.randint(0, len(ready)))
        if rng.random() < 0.2:
            state = ready.state()
            fresh = PackedUInt64ReadyBuffer(); fresh.restore(state)
            ready = fresh
    while len(ready):
        pop(rng.randint(1, len(ready)))
    result, start = [], 0
    for event in events:
        event = dict(event)
        if "emitted" in event:
            event["emitted"] = popped[start:start + len(event["emitted"])]
            start += len(event["emitted"])
        result.append(event)
    if start != len(popped):
        result.append({"op": "drain", "emitted": popped[start:], "stats": events[-1]["stats"]})
    return result


def corrupt_restores(check, cfg, sizes, base):
    """Snapshots of another configuration or with inconsistent books are refused."""
    for kind in ("many", "packed"):
        if kind == "packed" and cfg["max_bytes"]:
            continue
        run = Runner(kind, cfg, sizes, base)
        count = min(len(sizes), cfg["cap"] + 2)
        run.offer(list(range(1, count + 1)))
        good = run.obj.state()
        bad = {
            "seed": dataclasses.replace(good, seed=good.seed + 1),
            "epoch": dataclasses.replace(good, epoch=good.epoch + 1),
            "stream": dataclasses.replace(good, stream_key=good.stream_key + ("x",)),
            "capacity": dataclasses.replace(good, capacity=good.capacity + 1),
            "accounting": dataclasses.replace(good, offered=good.offered + 1),
            "accounting2": dataclasses.replace(good, emitted=max(0, good.emitted - 1), offered=good.offered),
            "closed": dataclasses.replace(good, closed=True),
            "peak": dataclasses.replace(good, peak_occupancy=cfg["cap"] + 1),
            "algorithm": dataclasses.replace(good, algorithm="other"),
        }
        if good.emitted == 0:
            bad.pop("accounting2")
        if kind == "many":
            bad["lost slot"] = dataclasses.replace(good, slots=good.slots[:-1], slot_sizes=good.slot_sizes[:-1],
                                                   resident_bytes=sum(good.slot_sizes[:-1]))
            bad["bytes"] = dataclasses.replace(good, resident_bytes=good.resident_bytes + 1)
            bad["max bytes"] = dataclasses.replace(good, max_bytes=(good.max_bytes or 10**6) + 1)
        else:
            bad["lost slot"] = dataclasses.replace(good, slots_le=good.slots_le[:-8])
        for name, state in bad.items():
            fresh = run.new()
            check.note("corrupt_snapshots")
            try:
                fresh.restore(state)
            except (ValueError, RuntimeError, TypeError, OverflowError):
                continue
            check.violation("an inconsistent snapshot was accepted", f"{kind}: {name}", {"cfg": cfg})


def body(check):
    model(check)
    env.activate(check.tmp)
    from dataset.shuffle import StreamingShuffleReservoir
    rng = check.rng
    plans = []
    for n, ops in schedules(check):
        for cap in (1, 2, 3):
            plans.append((n, cap, 0, [0] * n, ops))
        if len(plans) % 2:
            plans.append((n, 3, 4, [rng.randint(0, 4) for _ in range(n)], ops))
    count = 220 if check.thorough else 60
    for index in range(count):
        n = rng.choice([7, 12, 20, 33, 60] + ([150] if check.thorough else []))
        cap = rng.choice([1, 2, 3, 5, 8, 16, 30, 64])
        if index % 2:
            maxb = rng.choice([6, 11, 25]); sizes = [rng.randint(0, 6) for _ in range(n)]
        else:
            maxb, sizes = 0, [0] * n
        plans.append((n, cap, maxb, sizes, random_schedule(rng, n)))
    limit = 6000 if check.thorough else 700
    if len(plans) > limit:
        head, tail = plans[:-count], plans[-count:]
        plans = rng.sample(head, limit - count) + tail
    cases, lengths, raw = [], [], []
    for n, cap, maxb, sizes, ops in plans:
        cfg = dict(seed=rng.randint(-5, 10**6), epoch=rng.randint(0, 9),
                   stream_key=("k", rng.randint(0, 5)), cap=cap, max_bytes=maxb)
        base = rng.choice([0, 1 << 40, (1 << 63) + 17])
        kinds = ["one", "many"] + ([] if maxb else ["zero", "packed"])
        variants = []
        expected = None
        for kind in kinds:
            plan = ops
            try:
                events, out = execute(kind, cfg, sizes, base, plan, rng)
            except report.Violation:
                raise
            except Exception as exc:
                check.violation("an ordinary call failed", f"{kind}: {exc!r}", {"cfg": cfg, "ops": ops})
                continue
            if expected is None:
                expected = out
            variants.append({"name": kind, "events": events, "sized": not kind.startswith("packed")})
            if kind == "packed":
                variants.append({"name": "packed-ready", "sized": False,
                                 "events": through_ready_buffer(events, base, rng)})
        if not variants:
            continue
        if not maxb:
            # the same stream without any snapshot, in one chunk per 3 items
            events, out = execute("many", cfg, sizes, base,
                                  [{"op": "offer", "n": min(3, n - s)} for s in range(0, n, 3)]
                                  + [{"op": "drain", "n": 0}], rng)
            variants.append({"name": "plain", "events": events, "sized": True})
        others = []
        if n >= 20 and cap >= 5 and not maxb:
            for key, delta in (("seed", 1), ("epoch", 1), ("stream_key", None)):
                other = dict(cfg)
                other[key] = cfg[key] + delta if delta else cfg[key] + ("other",)
                others.append(execute("many", other, sizes, base, ops, rng)[1])
            others.append(list(range(1, n + 1)))
        cases.append({"cap": cap, "max_bytes": maxb, "sizes": sizes, "variants": variants,
                      "expected": expected, "others": others, "victims": []})
        raw.append({"cfg": cfg, "ops": ops, "sizes": sizes})
        lengths += [len(v["events"]) + 2 for v in variants]
    for cap in (2, 3, 5):
        victims = []
        for seed in range(120):
            res = StreamingShuffleReservoir(cap, seed=seed, epoch=0, stream_key=())
            for i in range(1, cap + 1):
                res.offer(i)
            victims.append(res.offer(cap + 1)[0])
        cases.append({"cap": cap, "max_bytes": 0, "sizes": [], "expected": [], "others": [],
                      "victims": victims, "variants": [{"name": "mix", "events": [], "sized": True}]})
        raw.append({"cap": cap, "victims": victims})
        lengths.append(2)
    for n, cap, maxb in ((9, 4, 0), (9, 4, 12), (3, 5, 0)):
        cfg = dict(seed=7, epoch=2, stream_key=("k",), cap=cap, max_bytes=maxb)
        corrupt_restores(check, cfg, [1 if maxb else 0] * n, 5)

    def on_error(item):
        check.violation(item["clause"], f"variant {item['variant']} step {item['step']}", raw[item["case"] - 1])

    step = 400
    index = 0
    for start in range(0, len(cases), step):
        part = cases[start:start + step]
        size = sum(len(c["variants"]) for c in part)
        offset = start

        def on_part(item, offset=offset):
            on_error({**item, "case": item["case"] + offset})

        traces.validate(check, "ReservoirTrace", part, lengths=lengths[index:index + size],
                        label=f"reservoir-{start}", on_error=on_part,
                        constants=dict(N=0, Cap=1, MaxBytes=0, Size=[], MaxChunk=0, MaxSnaps=0, Gen=False))
        index += size
    check.sample({"schedule": raw[0], "variants": [v["name"] for v in cases[0]["variants"]]})


report.main(PID, body)
