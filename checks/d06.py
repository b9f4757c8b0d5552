"""D06: the order in which sources give their records (Sources.tla, SourcesMC.tla, SourcesTrace.tla)."""
import os

from vlib import ds, env, plan, report, session, tlc, traces

PID = "D06"
NPZ = ["iterative_processed_katago_numpy", "batched_processed_katago_numpy", "iterative_katago_numpy", "iterative_sparse_numpy"]


def model(check):
    grid = [(2, 2, 2, {1, 2}, 4, 5), (3, 2, 1, {1, 2, 3}, 6, 7)]
    if check.thorough:
        grid += [(3, 2, 2, {1, 2, 3}, 9, 10), (4, 1, 2, {1, 2}, 3, 4)]
    for files, entries, records, quanta, most, longest in grid:
        check.tlc(tlc.run(check.tmp, "SourcesMC", constants=dict(Files=files, Entries=entries, Records=records, Quanta=quanta, Most=most, Longest=longest), timeout=600, heap="6g",
                          invariants=["FewOpen", "InFileOrder", "TurnOpen", "Complete", "NoneSkipped", "OneReaderIsPlain"], properties=["Ends"]), f"SourcesMC {files} files")


class Node:
    """A fixture and what Sources.tla has to know about it."""

    def __init__(self, fixture, kind, **more):
        self.fixture, self.kind, self.more = fixture, kind, more

    def source(self, served):
        if self.kind == "mix":
            return dict(kind="mix", of=[c.source(served) for c in self.more["of"]], ratios=self.more["ratios"], sync=self.more["sync"])
        files = []
        for number, entries in enumerate(self.more["entries"]):
            files.append([[r.id for r in self.more["records"] if r.file == number and r.entry == k and tuple(r.hw) in served] for k in range(entries)])
        if self.kind == "files":
            return dict(kind="files", files=[sum(f, []) for f in files])
        return dict(kind="readers", files=files, active=self.more["active"], quantum=self.more["quantum"])


def leaf(folder, rng, sizes, family=None):
    """family: children of one mix agree on the extra fields (NPZ boards, or binary games without them)."""
    plain = dict(drop_extra=True) if family == "games" else {}
    if family == "boards" or rng.random() < 0.35:
        kind = "iterative_sparse_numpy" if plain else rng.choice(NPZ[:3])
        files = [(rng.choice(sizes), rng.randint(1, 7)) for _ in range(rng.randint(1, 3))]
        fixture = ds.npz_fixture(folder, rng, kind, files, **plain)
        fixture.kwargs.pop("boardsizes")
        return Node(fixture, "files", records=fixture.records, entries=[n for _, n in files])
    kind = rng.choice(["simple_binary", "packed_binary"])
    active, quantum = rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 3, 5, 100])
    files = [(sizes, rng.randint(1, 6)) for _ in range(rng.randint(1, 5))]
    fixture = ds.binary_fixture(folder, rng, kind, files, plies=(5, 14) if kind == "simple_binary" else (3, 7),
                                sequential_active_streams=active, sequential_read_quantum=quantum, **plain)
    fixture.kwargs.pop("boardsizes")
    if (active, quantum) == (2, 100) and rng.random() < 0.5:        # the defaults
        del fixture.kwargs["sequential_active_streams"], fixture.kwargs["sequential_read_quantum"]
    return Node(fixture, "readers", records=fixture.records, entries=[n for _, n in files], active=active, quantum=quantum)


RATIOS = [(1, 1), (1, 1), (2, 1), (3, 1), (1, 2), (1, 4), (3, 2), (7, 10), (1, 5), (5, 1), (13, 10), (3, 5)]


def mix(folder, rng, sizes, depth, family=None):
    children, family = [], family or rng.choice(["boards", "games"])
    nested = family == "boards" and depth
    for k in range(rng.choice([1, 2, 2, 2, 3, 4])):
        where = os.path.join(folder, str(k))
        children.append(mix(where, rng, sizes, 0, family) if nested and rng.random() < 0.25 else leaf(where, rng, sizes, family))
    ratios = [rng.choice(RATIOS) for _ in children]
    sync = rng.choice([True, False])
    fixture = ds.multi_fixture([c.fixture for c in children], [n / d for n, d in ratios], sync)
    fixture.kwargs.pop("boardsizes")
    for options in fixture.kwargs["dataset_dict"].values():
        if options["dataset_type"] == "iterative_multi":
            options["data_paths"] = []
    return Node(fixture, "mix", of=children, ratios=[list(r) for r in ratios], sync=sync)


def length(check, source):
    """Only how long the order is; a bound for choosing options, never a verdict."""
    if source["kind"] == "files":
        return sum(map(len, source["files"]))
    if source["kind"] == "readers":
        return sum(len(e) for f in source["files"] for e in f)
    lengths = [length(check, c) for c in source["of"]]
    if not source["sync"]:
        return sum(lengths)
    from fractions import Fraction
    from math import lcm, gcd
    fr = [Fraction(*r) for r in source["ratios"]]
    m = lcm(*(f.denominator for f in fr))
    ws = [int(f * m) for f in fr]
    g = gcd(*ws)
    ws = [w // g for w in ws]
    return min(n // w for n, w in zip(lengths, ws)) * sum(ws)


def hollow(source):
    """Indexed files without any row are refused when opened."""
    return any(map(hollow, source["of"])) if source["kind"] == "mix" else source["kind"] == "files" and not any(source["files"])


def record(check, rng, fixture, make, train, epochs, saves):
    events = []
    dataset = make()
    planner = dataset._build_partitioned_stream()
    iterator, done, pending = iter(dataset), 0, []
    while done < epochs:
        try:
            with report.limit(120):
                envelope = next(iterator)
        except StopIteration:
            events.append(dict(op="end"))
            done += 1
            if done < epochs:
                iterator = iter(dataset)
            continue
        except Exception as error:
            events.append(dict(op="raised", what=repr(error)[:300]))
            break
        seen = session.plan.observe(fixture, envelope)
        events.append(dict(op="batch", rows=[r for r, real in zip(seen["rows"], seen["real"]) if real]))
        if len(events) > 3000:
            raise RuntimeError("the stream does not end")
        if not train:
            continue
        planner.commit_batch(envelope.token)
        last = bool(envelope.token.batch.is_last if hasattr(envelope.token, "batch") else envelope.token.is_last)
        if saves and not last and rng.random() < saves:
            state = session.disk_roundtrip(planner.state_dict())
            iterator.close()
            dataset = make()
            planner = dataset._build_partitioned_stream()
            planner.load_state_dict(state)
            iterator = iter(dataset)
            events.append(dict(op="saved"))
    if iterator is not None and hasattr(iterator, "close"):
        iterator.close()
    return events


def body(check):
    env.activate(check.tmp)
    model(check)
    rng = check.rng
    cases, notes = [], []
    number = 0
    wanted = 900 if check.thorough else 170
    while len(cases) < wanted:
        number += 1
        folder = os.path.join(check.tmp, f"src{number}")
        sizes = rng.choice([[5], [6], [5, 6], [5, 6]])
        node = mix(folder, rng, sizes, 1) if number % 2 else leaf(folder, rng, sizes)
        fixture = node.fixture
        present = sorted({tuple(r.hw) for r in fixture.records})
        asked = [(s, s) for s in (rng.sample(sizes, 1) if len(sizes) > 1 and rng.random() < 0.65 else sizes)]
        fixture.kwargs["boardsizes"] = asked
        source = node.source(set(asked))
        total = length(check, source)
        if total == 0 or hollow(source):
            continue
        shapes = len(set(asked) & set(present))
        batch = 1 if shapes > 1 else rng.choice([1, 1, 2, 3, 5])
        train = rng.random() < 0.7
        steps = rng.choice([0, 0, rng.randint(1, 12)]) if train else 0
        if train and total < batch:
            continue
        if steps:
            fixture.kwargs["steps_per_epoch"] = steps
        binary, broken = node.kind == "readers", False
        saves = rng.choice([0, 0.1, 0.4]) if train else 0
        if binary and rng.random() < 0.2:           # cut one file inside an entry
            path = rng.choice(fixture.paths)
            with open(path, "r+b") as stream:
                full = stream.seek(0, 2)
                if fixture.dataset_type == "simple_binary":      # any odd length ends inside a word
                    stream.truncate(full - rng.choice([1, 3]))
                else:
                    stream.truncate(full - rng.choice([1, 2, 3]))
            broken = True
            fixture.kwargs.pop("steps_per_epoch", None)
            steps = 0
        elif binary and rng.random() < 0.2:         # compressed: no saving
            import lz4.frame
            paths = []
            for path in fixture.paths:
                with open(path, "rb") as stream, lz4.frame.open(path + ".lz4", "wb") as out:
                    out.write(stream.read())
                paths.append(path + ".lz4")
            fixture.paths, saves = paths, 0
        plan.set_chunk(rng.choice([1, 2, 3, 7, 64]))
        mode = "train" if train else "validate"

        def make():
            return fixture.build(ds.context(batch, mode=mode, seed=number), shuffle=False)
        try:
            events = record(check, rng, fixture, make, train, rng.choice([1, 2, 3]), saves)
        except Exception as error:
            if not hasattr(error, "add_note") or "does not end" in str(error):
                raise
            events = [dict(op="raised", what=repr(error)[:300])]
        cases.append(dict(source=source, batch=batch, steps=steps, train=train, broken=broken, events=events))
        what = [e["what"] for e in events if e["op"] == "raised"]
        notes.append(f"{fixture.dataset_type} batch={batch} steps={steps} {mode} {what}")

    def on_error(item):
        check.violation(item["clause"], f"{notes[item['case'] - 1]}: event {item['step']}", dict(what=notes[item["case"] - 1], event=item["step"], case=cases[item["case"] - 1]))
    traces.validate(check, "SourcesTrace", cases, label="sources", on_error=on_error, lengths=[len(c["events"]) + 1 for c in cases], timeout=800)
    check.note("batches", sum(e["op"] == "batch" for c in cases for e in c["events"]))
    check.note("loads", sum(e["op"] == "saved" for c in cases for e in c["events"]))
    check.note("broken files", sum(c["broken"] for c in cases))
    check.sample(cases[0])


report.main(PID, body)
