"""D03: distributed partition (Partition.tla, PartitionTrace.tla, EpochPlanTrace.tla)."""
import json
import os
import pickle
import subprocess
import sys

from vlib import ds, env, plan, report, session, stamp, tlc, traces

PID = "D03"
RANKS = 4


def model(check):
    grid = [([5, 3, 3, 2, 1], 2, 2), ([4, 4, 4, 1], 3, 1), ([9, 1, 1, 1, 1, 1], 3, 3), ([2, 2], 2, 2)]
    if check.thorough:
        grid += [([7, 5, 5, 3, 2, 2, 1], 3, 2), ([6, 6, 5, 4, 3, 3, 2], 4, 4)]
    for sizes, world, local in grid:
        result = tlc.run(check.tmp, "Partition", constants=dict(Sizes=sizes, World=world, Local=local),
                         invariants=["Disjoint", "Complete", "NoneEmpty", "Balanced", "SlicesPartition"])
        check.tlc(result, f"Partition {sizes}")
    for n, shapes, w, b, budget in [(3, [1, 2, 1], 2, 2, 3), (2, [1, 1], 2, 3, 3)]:
        result = tlc.run(check.tmp, "EpochPlan", constants=dict(
            N=n, ShapeOf=shapes, W=w, B=b, Train=True, Budget=budget, Sharded=True),
            invariants=["FullBatches", "Homogeneous", "WithinBudget", "CycleOrder", "LastIsLast"])
        check.tlc(result, f"EpochPlan sharded N={n}")


def by_directory(fixture):
    """Name the folder instead of the files, so that enumeration order matters."""
    folders = {os.path.dirname(p) for p in fixture.paths}
    if fixture.paths and len(folders) == 1:
        fixture.paths = [folders.pop()]
    for options in fixture.kwargs.get("dataset_dict", {}).values():
        folders = {os.path.dirname(p) for p in options["data_paths"]}
        if len(folders) == 1:
            options["data_paths"] = [folders.pop()]
    return fixture


def nested(root, rng):
    """Files in subdirectories: walking order matters too."""
    fixture = ds.npz_fixture(os.path.join(root, "nest"), rng, "iterative_processed_katago_numpy",
                             [(5, 5), (5, 6), (5, 4), (5, 7)])
    where = [("b", 2), ("a", 1), ("c", 0), ("c", 3)]
    import shutil
    moved = []
    for (folder, number), path in zip(where, fixture.paths):
        target = os.path.join(root, "nest", folder)
        os.makedirs(target, exist_ok=True)
        moved.append(shutil.move(path, os.path.join(target, f"p{number}.npz")))
    fixture.paths, fixture.name = [os.path.join(root, "nest")], "nested-folders"
    return fixture


def jobs_of(check, root):
    rng = check.rng
    jobs = []
    fixtures = [by_directory(f) for f in ds.standard_fixtures(root, rng)] + [nested(root, rng)]
    # several small files of different sizes, so that greedy sharding has choices
    for number, kind in enumerate(["simple_binary", "packed_binary"]):
        f = ds.binary_fixture(os.path.join(root, f"many{number}"), rng, kind,
                              [(5, n) for n in rng.sample([1, 1, 2, 2, 3, 4, 14], 7)], plies=(4, 14) if number == 0 else (2, 6),
                              sequential_read_quantum=2)
        f.name = f"many-{kind}"
        fixtures.append(by_directory(f))
    # boards of two sizes in every file, read over several cycles
    f = ds.binary_fixture(os.path.join(root, "cyc"), rng, "simple_binary", [((5, 6), n) for n in (5, 7, 4, 6)],
                          plies=(4, 14))
    f.name = "cycles"
    fixtures.append(by_directory(f))
    mixed = ds.multi_fixture([
        ds.npz_fixture(os.path.join(root, "mx0"), rng, "iterative_sparse_numpy", [(5, 7), (5, 6), (5, 1)],
                       drop_extra=True),
        ds.binary_fixture(os.path.join(root, "mx2"), rng, "simple_binary", [(5, 4), (5, 5), (5, 3), (5, 2)],
                          plies=(8, 12), drop_extra=True)], [1, 2], False)
    mixed.name = "multi-mixed"
    fixtures.append(by_directory(mixed))
    for fixture in fixtures:
        probe = fixture.build(ds.context(2))._build_partitioned_stream()
        exact = probe.source.capabilities.exact_distributed_partition
        resumable = probe.capabilities.resumable
        files = fixture_files(fixture)
        for repeat in range(4 if check.thorough else 2):
            for mode in ("train", "validate"):
                world = rng.choice([2, 3, 4])
                kind = "replicated" if exact else "sharded"
                if not exact and (mode != "train" or min(files) < 2):
                    continue
                if not exact:
                    world = min(world, min(files))
                kwargs = dict(shuffle=rng.random() < 0.7)
                if kwargs["shuffle"]:
                    kwargs["shuffle_window_size"] = rng.choice([1, 3, 7, 100])
                if kind == "sharded":
                    kwargs["steps_per_epoch"] = rng.randint(9, 16) if fixture.name == "cycles" else rng.randint(2, 6)
                elif rng.random() < 0.25:
                    kwargs["steps_per_epoch"] = rng.randint(1, 3)
                if (exact and mode == "train" and fixture.dataset_type != "iterative_multi" and rng.random() < 0.5):
                    kwargs["apply_symmetry"] = True
                if fixture.dataset_type == "batched_processed_katago_numpy":
                    kwargs["prefetch_threads"] = rng.choice([0, 2])
                jobs.append(dict(
                    kind=kind, fixture=fixture, kwargs=kwargs, world=world, local=rng.choice([2, 3] if fixture.name == "cycles" else [1, 2]),
                    seed=rng.randint(0, 99), mode=mode, epochs=2 if kind == "sharded" or mode == "train" else 1,
                    chunk=rng.choice([2, 5, 1000]), cycles=12, resumable=resumable, files=files))
    for number, (kind, files) in enumerate([("processed_katago_numpy", [(5, 7), (5, 4)]),
                                            ("katago_numpy", [(6, 6), (6, 5)])]):
        fixture = ds.npz_fixture(os.path.join(root, f"map{number}"), rng, kind, files)
        fixture.name = f"map-{kind}"
        for world in (2, 3):
            jobs.append(dict(kind="map", fixture=fixture, kwargs={}, world=world, local=rng.choice([1, 2, 3]),
                             seed=3, mode="validate", epochs=1, chunk=5, cycles=0, resumable=False, files=[2]))
    return jobs


def fixture_files(fixture):
    """Files per child that is split by file."""
    def count(paths):
        return sum(len([n for n in os.listdir(p)]) if os.path.isdir(p) else 1 for p in paths)
    if fixture.dataset_type == "iterative_multi":
        return [count(o["data_paths"]) for o in fixture.kwargs["dataset_dict"].values()
                if "binary" in o["dataset_type"]] or [1]
    return [count(fixture.paths)]


def run_ranks(check, jobs):
    path = os.path.join(check.tmp, "jobs.pkl")
    with open(path, "wb") as stream:
        pickle.dump(jobs, stream)
    procs = []
    for rank in range(RANKS):
        out = os.path.join(check.tmp, f"rank{rank}.pkl")
        environ = dict(os.environ, PYTHONHASHSEED=str(7 + 13 * rank))
        procs.append((out, subprocess.Popen(
            [sys.executable, "-m", "vlib.rankworker", str(rank), path, out], env=environ,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    return procs


def reference(job):
    """One rank with the global batch size."""
    fixture = job["fixture"]
    plan.set_chunk(1024)
    ctx = ds.context(job["local"] * job["world"], seed=job["seed"], mode=job["mode"])
    built = fixture.build(ctx, **job["kwargs"])

    def see(envelope):
        seen = plan.observe(fixture, envelope)
        seen["digs"] = session.row_digests(envelope.data, len(seen["rows"]))
        return seen
    if job["kind"] == "map":
        return [see(e) for e in built]
    planner = built._build_partitioned_stream()
    batches = []
    for _ in range(job["epochs"]):
        for envelope in built:
            batches.append(see(envelope))
            if job["mode"] == "train":
                planner.commit_batch(envelope.token)
    return batches


def body(check):
    model(check)
    env.activate(check.tmp)
    stamp.register()
    jobs = jobs_of(check, os.path.join(check.tmp, "data"))
    procs = run_ranks(check, jobs)
    refs = []
    for job in jobs:
        try:
            with report.limit(60):
                refs.append(reference(job) if job["kind"] != "sharded" else [])
        except RuntimeError as exc:
            refs.append(None if "no global batch" in str(exc) else {"error": repr(exc)})
        except Exception as exc:
            refs.append({"error": repr(exc)})
    results = []
    for out, proc in procs:
        _, stderr = proc.communicate(timeout=600)
        if proc.returncode:
            sys.stderr.write(stderr.decode()[-3000:])
            raise RuntimeError("rank worker failed")
        with open(out, "rb") as stream:
            results.append(pickle.load(stream))
    cases, lengths, raw = [], [], []
    epochs, elengths, eraw = [], [], []
    for number, job in enumerate(jobs):
        fixture, world = job["fixture"], job["world"]
        info = dict(dataset=fixture.name, **{k: job[k] for k in ("kind", "kwargs", "world", "local", "seed", "mode")})
        ranks = [results[r][number] for r in range(world)]
        if refs[number] is None:
            if not all("no global batch" in r.get("error", "") for r in ranks):
                check.violation("a rank delivers batches where the single-rank run has none", str(ranks)[:600], info)
            continue
        if isinstance(refs[number], dict):
            check.violation("an ordinary single-rank run failed", refs[number]["error"], info)
            continue
        failed = [r for r in ranks if "error" in r]
        if failed:
            check.violation("an ordinary rank's stream failed", failed[0]["error"], {**info, "trace": failed[0]["trace"]})
            continue
        if job["kind"] == "sharded" and job["resumable"]:
            problem = foreign(job, ranks)
            if problem:
                check.violation("a rank's own position was refused in another process", problem, info)
                continue
        shares = [dict(r) for r in ranks]
        balance = job["kind"] == "sharded" and fixture.dataset_type != "iterative_multi"
        for share in shares:
            share.update(files=0, smallest=0)
        if balance:
            sizes = file_sizes(fixture)
            where = {r.id: r.file for r in fixture.records}
            for share in shares:
                own = [sizes[f] for f in {where[i] for i in share["shard"] if i}]
                share.update(files=len(own), bytes=sum(own), smallest=min(own, default=0))
        case = dict(
            kind=job["kind"], world=world, local=job["local"], all=list(range(1, len(fixture.records) + 1)),
            cover=fixture.name != "multi-sync", balance=balance, budget=job["kwargs"].get("steps_per_epoch") or 0,
            epochs=job["epochs"], eval=job["mode"] != "train" and not job["kwargs"].get("steps_per_epoch")
            and fixture.name != "multi-sync",
            ref=refs[number], ranks=[{k: s[k] for k in ("shard", "bytes", "files", "smallest", "batches", "descs", "state", "coord", "foreign")}
                                     for s in shares])
        cases.append(case)
        lengths.append(max(len(s["batches"]) for s in shares) + 2)
        raw.append(info)
        if job["kind"] == "sharded":
            shuffle = job["kwargs"]["shuffle"]
            budget = job["kwargs"]["steps_per_epoch"]
            for rank, share in enumerate(ranks):
                for epoch in range(job["epochs"]):
                    epochs.append({
                        "b": job["local"], "w": 1, "train": True, "budget": budget, "fifo": not shuffle,
                        "sharded": True, "window": False, "enough": True, "arr": share["arr"][epoch],
                        "all": sorted(set(share["arr"][epoch][0])), "shape": plan.shape_list(fixture),
                        "batches": share["batches"][epoch * budget:(epoch + 1) * budget], "ended": True,
                        "others": [], "again": []})
                    elengths.append(len(epochs[-1]["batches"]) + 2)
                    eraw.append({**info, "rank": rank, "epoch": epoch})

    def on_error(item):
        check.violation(item["clause"], f"batch {item['step']}",
                        {"case": raw[item["case"] - 1], "observed": cases[item["case"] - 1]})

    def on_epoch_error(item):
        check.violation(item["clause"], f"batch {item['step']} of one rank",
                        {"case": eraw[item["case"] - 1], "observed": epochs[item["case"] - 1]})

    traces.validate(check, "PartitionTrace", cases, lengths=lengths, label="partition", on_error=on_error,
                    constants=dict(Sizes=[1], World=1, Local=1))
    traces.validate(check, "EpochPlanTrace", epochs, lengths=elengths, label="shards", on_error=on_epoch_error,
                    constants=dict(N=0, ShapeOf=[], W=1, B=1, Train=True, Budget=0, Sharded=False))
    check.note("rank_streams", sum(j["world"] for j in jobs))
    check.sample(raw[0])
    check.sample(raw[-1])


def file_sizes(fixture):
    folder = fixture.paths[0]
    names = sorted(os.listdir(folder)) if os.path.isdir(folder) else None
    paths = [os.path.join(folder, n) for n in names] if names else fixture.paths
    return [os.path.getsize(p) for p in paths]


def foreign(job, ranks):
    """Load each rank's saved position on the next rank: it has to be refused."""
    fixture, world = job["fixture"], job["world"]
    for rank in range(world):
        saved = ranks[(rank + 1) % world]["saved"]
        ctx = ds.context(job["local"], world, rank, seed=job["seed"], mode=job["mode"])
        planner = fixture.build(ctx, **job["kwargs"])._build_partitioned_stream()
        try:
            planner.load_state_dict(saved)
            ranks[rank]["foreign"] = False
        except Exception:
            pass
        try:
            planner = fixture.build(ctx, **job["kwargs"])._build_partitioned_stream()
            planner.load_state_dict(ranks[rank]["saved"])
        except Exception as exc:
            return repr(exc)
    return ""


report.main(PID, body)
