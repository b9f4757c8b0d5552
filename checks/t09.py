"""T09: training on several ranks (DistTrainer.tla)."""
import os

import numpy as np

from vlib import dist, ds, env, report, tlc, traces, trainlab

PID = "T09"
ALL = {"fetch", "hook", "forward", "mutate", "after", "save"}
INVARIANTS = ["Agree", "InOrder", "EndTogether", "FilesExact", "Others"]


def model(check):
    grid = [dict(Worlds={1, 2, 3}, Total=3, Accum=1, SaveEvery=2, MaxSessions=2),
            dict(Worlds={2}, Total=2, Accum=2, SaveEvery=1, MaxSessions=3)]
    if check.thorough:
        grid += [dict(Worlds={1, 2, 4}, Total=3, Accum=2, SaveEvery=2, MaxSessions=2),
                 dict(Worlds={2, 3}, Total=4, Accum=1, SaveEvery=3, MaxSessions=3)]
    for constants in grid:
        result = tlc.run(check.tmp, "DistTrainer", constants=dict(constants, Exchange=ALL), invariants=INVARIANTS, workers=4,
                         timeout=600, deadlock=True)
        check.tlc(result, f"DistTrainer {constants}")
    # the specification tells the difference: without one exchange somebody waits for ever
    for missing in sorted(ALL - {"save"}):
        result = tlc.run(check.tmp, "DistTrainer", constants=dict(grid[0], Exchange=ALL - {missing}), invariants=INVARIANTS,
                         workers=4, timeout=300, deadlock=True)
        if result.ok:
            raise RuntimeError(f"DistTrainer finds nothing without the exchange after {missing}")


AT = [("fetch", "error"), ("fetch", "memory"), ("before", "error"), ("forward", "error"), ("forward", "nan-loss"),
      ("forward", "inf-metric"), ("forward", "nan-grad"), ("optim", "error"), ("after", "error"), ("val", "error"), ("write", "error")]


def sources(root, rng):
    """Sources every rank of which reads a share of the same global batches."""
    npz, join = ds.npz_fixture, os.path.join
    n = lambda: rng.randint(9, 16)
    out = [
        ("map", npz(join(root, "map"), rng, "processed_katago_numpy", [(5, n()), (5, n())])),
        ("stream", npz(join(root, "it"), rng, "iterative_processed_katago_numpy", [(5, n()), (5, n()), (5, n())])),
        ("katago", npz(join(root, "k"), rng, "iterative_katago_numpy", [(6, n()), (6, n())])),
        ("batched", npz(join(root, "b"), rng, "batched_processed_katago_numpy", [(5, n()), (5, n())])),
        ("sparse", npz(join(root, "s"), rng, "iterative_sparse_numpy", [(5, n()), (5, n())], drop_extra=True)),
        ("simple", ds.binary_fixture(join(root, "sb"), rng, "simple_binary", [(5, n()) for _ in range(4)])),
        ("packed", ds.binary_fixture(join(root, "pb"), rng, "packed_binary", [(6, 6), (6, 5), (6, 5)])),
    ]
    for name, fixture in out:
        fixture.name = name
    return out


def configuration(rng, name, fixture, val, world, plain):
    """One training configuration; `plain` ones are comparable with a single process."""
    accum = rng.choice([1, 1, 2])
    total = rng.choice([3, 4])
    conf = dict(dataset_type=fixture.dataset_type, train_datas=list(fixture.paths), iterations=total, gradient_accumulation_steps=accum,
                save_interval=rng.choice([1, 2, 3, 99]), temp_save_interval=rng.choice([1, 2, 99]), val_interval=10**6,
                batch_size=world * rng.choice([1, 2, 3]) if not plain else 6, random_seed=rng.randrange(1000), num_keep_states=rng.choice([-1, 1, 2]),
                log_interval=rng.choice([1, 2]), show_interval=rng.choice([1, 10**6]), no_shuffle=rng.random() < 0.2)
    state = rng.choice([0, 0, 2])
    conf["state_save_interval"] = state or None
    args = dict(fixture.kwargs)
    if name in ("stream", "katago", "simple") and rng.random() < 0.5:
        args["apply_symmetry"] = True
    if name in ("simple", "packed"):
        args["steps_per_epoch"] = rng.choice([2, 3, 5])
    conf["dataset_args"] = args
    if rng.random() < 0.5:
        conf.update(val_datas=list(val.paths), val_dataset_type=val.dataset_type, val_dataset_args=dict(val.kwargs), val_interval=rng.choice([1, 2]))
    opt, oargs = rng.choice(trainlab.OPTIMIZERS)
    sched, sargs = rng.choice(trainlab.SCHEDULERS)
    if plain:
        opt, oargs = rng.choice([("sgd", {}), ("sgd-momentum", {}), ("sgd-nesterov", {})])
        conf["model_args"] = dict(norm=False, drop=0.0)
        if rng.random() < 0.4:
            conf["clip_grad_norm"] = 0.05
        if rng.random() < 0.3:
            conf["clip_grad_value"] = 0.01
    else:
        conf["model_args"] = dict(norm=rng.random() < 0.6)
    if rng.random() < 0.4:
        conf["model_args"]["clip"] = 0.05
    conf.update(optim_type=opt, optim_args=dict(oargs), lr_scheduler_type=sched, lr_scheduler_args=dict(sargs),
                learning_rate=rng.choice([0.05, 0.01]))
    return conf, accum, total, state


def means(log, total):
    return {x["it"]: x["train_loss"] for x in log if "train_loss" in x and x["it"] <= total}


def cases_of(check, rng):
    """Plans: per plan, the jobs in order, each with its world."""
    root = os.path.join(check.tmp, "data")
    src = sources(root, rng)
    val = ds.npz_fixture(os.path.join(root, "val"), rng, "iterative_processed_katago_numpy", [(5, 7)])
    plans = []
    order = rng.sample(range(len(src)), len(src))
    faults = rng.sample(AT, len(AT)) + [("val", "error")]
    turn = 0
    count = 40 if check.thorough else 16
    for k in range(count):
        name, fixture = src[order[k % len(order)]]
        world = rng.choice([2, 2, 3]) if k % 4 else 3
        plain = k % 2 == 0
        conf, accum, total, state = configuration(rng, name, fixture, val, world, plain)
        if name in ("katago", "packed"):
            conf["val_interval"] = 10**6
            for key in ("val_datas", "val_dataset_type", "val_dataset_args"):
                conf.pop(key, None)
        job = dict(module="vlib.distlab", run="run", config=conf, noise=0 if plain else 1, root=os.path.join(check.tmp, f"run{k}"))
        at, kind = faults[turn % len(faults)]
        if at == "val" and name in ("katago", "packed"):
            at, kind = "forward", "error"
        else:
            turn += 1
        it = rng.randint(1, total)
        if at == "val":
            conf.update(val_datas=list(val.paths), val_dataset_type=val.dataset_type, val_dataset_args=dict(val.kwargs),
                        val_interval=rng.choice([1, 2]))
        if at == "val":
            it = conf["val_interval"] * rng.randint(1, total // conf["val_interval"])
        if at == "write":
            due = [n for n in range(1, total + 1) if n % conf["save_interval"] == 0 or n % conf["temp_save_interval"] == 0
                   or (state and n % state == 0) or n == total]
            it = rng.choice(due)
        micro = rng.randrange(accum) if at in ("fetch", "before", "forward") and kind != "nan-grad" else 0
        if kind == "nan-grad":
            micro = accum - 1
        fault = dict(rank=0 if at == "write" else rng.choice([0, *range(1, world), *range(1, world)]), at=at, it=it, micro=micro, kind=kind)
        plans.append(dict(k=k, name=name, fixture=fixture, world=world, plain=plain, accum=accum, total=total, state=state, job=job,
                          fault=fault, other=rng.random() < 0.35))
    return plans


def body(check):
    env.activate(check.tmp)
    rng = check.rng
    model(check)
    plans = cases_of(check, rng)
    # one group of processes per number of ranks works through everything that number has to do
    sessions = {}
    alone = [dict(p["job"], rundir=p["job"]["root"] + "-alone", fresh=True, salt=1, faults=[]) for p in plans]
    alone = [dict(j, config=dict(j["config"], log_interval=p["job"]["config"]["log_interval"])) for j, p in zip(alone, plans)]
    for p, got in zip(plans, dist.run(check, 1, alone)):
        p["alone"] = got
    for world in sorted({p["world"] for p in plans}):
        mine = [p for p in plans if p["world"] == world]
        jobs, where = [], []
        for p in mine:
            base = dict(p["job"], faults=[])
            jobs += [dict(base, rundir=p["job"]["root"] + "-ref", fresh=True, salt=2,
                          config=dict(base["config"], save_interval=99, temp_save_interval=99, state_save_interval=None)),
                     dict(base, rundir=p["job"]["root"], fresh=True, salt=3, faults=[p["fault"]])]
            where += [(p, "ref"), (p, "first")]
        for (p, part), got in zip(where, dist.run(check, world, jobs)):
            p[part] = got
    # a number of ranks the states are not for
    for world in sorted({5 - p["world"] for p in plans if p["other"]}):
        mine = [p for p in plans if p["other"] and 5 - p["world"] == world]
        jobs = [dict(p["job"], rundir=p["job"]["root"], salt=4, faults=[], config=dict(p["job"]["config"], batch_size=6)) for p in mine]
        for p, got in zip(mine, dist.run(check, world, jobs)):
            p["wrong"] = got
    for world in sorted({p["world"] for p in plans}):
        mine = [p for p in plans if p["world"] == world]
        jobs = [dict(p["job"], rundir=p["job"]["root"], salt=5, faults=[]) for p in mine]
        for p, got in zip(mine, dist.run(check, world, jobs)):
            p["last"] = got
    judge(check, plans)


def newest(files):
    return max([int(f.rsplit("_", 1)[-1].split(".")[0]) for f in files if f.startswith("state_") and f.endswith(".pt")], default=0)


def near(a, b, tolerance):
    return bool(np.abs(a - b).max() <= tolerance * max(1.0, np.abs(b).max()))


def session_events(p, part, got, fault, want):
    world = p["world"] if part != "wrong" else 5 - p["world"]
    none = dict(at="none", it=0)
    if isinstance(got, str) or any("raised" in g for g in got):
        what = got if isinstance(got, str) else next(g["raised"] for g in got if "raised" in g)
        return [dict(ev="start", world=world, ranks=[])] + [dict(ev="end", hung=True, ranks=[], fault=none, newest=0, logs=[])], what
    events = [dict(ev="start", world=world, ranks=[dict(it=g["start"]) for g in got])]
    steps = max(len(g["events"]) for g in got)
    for s in range(steps):
        rows = [g["events"][s] for g in got if len(g["events"]) > s]
        union = [sorted(x for r in rows for x in r["batches"][m]) if all(len(r["batches"]) > m for r in rows) else [] for m in range(p["accum"])]
        close = True
        if part != "wrong" and p["plain"] and rows[0]["it"] <= len(p["vectors"]):
            close = near(rows[0]["vector"], p["vectors"][rows[0]["it"] - 1], 2e-5)
        if part == "last" and not isinstance(p["ref"], str) and rows[0]["it"] <= len(p["ref"][0]["events"]):
            # three summands of a gradient are added in an order that depends on how the process group packs them
            close = close and near(rows[0]["vector"], p["ref"][0]["events"][rows[0]["it"] - 1]["vector"], 2e-4)
        events.append(dict(ev="step", close=close, rows=union, ranks=[
            dict(it=r["it"], rows=r["rows"], w=r["w"], g=r["r"], sizes=[len(b) for b in r["batches"]]) for r in rows]))
    word = "non-finite" if fault and fault["kind"] in ("nan-loss", "inf-metric", "nan-grad") else "No space left" if fault and fault["at"] == "write" else "injected"
    logs = []
    if want and part == "ref":
        found = means(got[0].get("log", []), p["total"])
        for it in sorted(want):
            for key in sorted(want[it]):
                value = found.get(it, {}).get(key)
                logs.append(dict(got=-10**6 if value is None else round(value * 10**5), want=round(want[it][key] * 10**5)))
    events.append(dict(ev="end", hung=False, fault=dict(at=fault["at"], it=fault["it"]) if fault else none, newest=newest(got[0]["files"]), logs=logs,
                       ranks=[dict(how=g["how"], it=g["end"], told=word in g["message"], writes=len(g["writes"])) for g in got]))
    return events, "; ".join(sorted({g["message"] for g in got if g["message"]}))


def judge(check, plans):
    cases, notes = [], []
    for p in plans:
        conf = p["job"]["config"]
        if isinstance(p["alone"], str) or "raised" in p["alone"][0] or p["alone"][0]["how"] != "done":
            raise RuntimeError(f"the run of one process failed: {p['alone'] if isinstance(p['alone'], str) else p['alone'][0].get('message') or p['alone'][0]}")
        alone = p["alone"][0]
        p["vectors"] = [e["vector"] for e in alone["events"]] if p["plain"] else []
        rows = [sorted(b) for e in alone["events"] for b in e["batches"]]
        shards = p["name"] in ("simple", "packed")
        ref = dict(w=[], g=[], rows=[] if shards else rows)
        if shards:
            p["vectors"] = []
        want = means(alone["log"], p["total"]) if p["plain"] and not shards else {}
        base = dict(accum=p["accum"], total=p["total"], batch=conf["batch_size"], world=p["world"], state=p["state"])
        note = dict(source=p["name"], world=p["world"], fault=p["fault"],
                    config={k: v for k, v in conf.items() if k not in ("train_datas", "val_datas")})

        def add(what, events, messages, ref, **cadence):
            cases.append(dict(base, save=conf["save_interval"], temp=conf["temp_save_interval"], ref=ref, events=events) | cadence)
            notes.append(dict(note, what=what, messages=messages))
        got = p["ref"]
        events, message = session_events(p, "ref", got, None, want)
        add("uninterrupted", events, message, ref, save=99, temp=99, state=0)
        if isinstance(got, str) or any("raised" in g or g["how"] != "done" for g in got):
            continue
        count = len(got[0]["events"])
        full = dict(ref, w=[e["w"] for e in got[0]["events"]] if p["world"] == 2 else [],
                    g=[[g["events"][s]["r"] for g in got] for s in range(count)] if not p["plain"] and all(len(g["events"]) == count for g in got) else [])
        events, messages = [], []
        for part, fault in (("first", p["fault"]), ("wrong", None), ("last", None)):
            if part in p:
                more, message = session_events(p, part, p[part], fault, None)
                if part == "wrong" and not isinstance(p[part], str) and newest(p["first"][0]["files"] if not isinstance(p["first"], str) else []) == 0:
                    break          # nothing was saved: the other group legitimately started afresh in this directory
                events += more
                messages.append(message[:400])
        add("interrupted", events, messages, full)
        check.sample(dict(notes[-1], sessions=[e["ev"] for e in events]))
        for p_fault in (p["fault"],):
            check.note(f"faults at {p_fault['at']}")
    check.note("runs on real ranks", len(cases))

    def on_error(item):
        note, case = notes[item["case"] - 1], cases[item["case"] - 1]
        check.violation(item["clause"], f"event {item['step']} of {note['what']} run", dict(note, events=case["events"]),
                        key=f"{note['source']}:{note['fault']['at']}:{note['what']}")
    traces.validate(check, "DistTrace", cases, lengths=[len(c["events"]) + 1 for c in cases], label="ranks", on_error=on_error)


report.main(PID, body)
