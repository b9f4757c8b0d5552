"""T05: evaluation reports (Metrics.tla)."""
import json
import math
import os
import random

import numpy as np

from vlib import dist, ds, env, evallab, report, tlc, traces

PID = "T05"


def model(check):
    grid = [dict(World=2, Local=2, Rows=5, Vals={0, 1, 3}, Sharded=False), dict(World=2, Local=1, Rows=4, Vals={0, 1}, Sharded=True),
            dict(World=3, Local=1, Rows=4, Vals={0, 2}, Sharded=False)]
    if check.thorough:
        grid += [dict(World=3, Local=2, Rows=7, Vals={0, 1}, Sharded=False), dict(World=3, Local=1, Rows=5, Vals={0, 1}, Sharded=True),
                 dict(World=4, Local=1, Rows=6, Vals={0, 1}, Sharded=False)]
    for constants in grid:
        result = tlc.run(check.tmp, "Metrics", constants=constants, invariants=["MeanRight", "MaxRight", "NeverEmpty", "EveryRow"],
                         workers=4, timeout=600)
        check.tlc(result, f"Metrics {constants}")


# ------------------------------------------------------------------ single process, any sharding
def random_rows(rng, hw, count):
    import torch
    nrng = np.random.default_rng(rng.getrandbits(50))
    h, w = hw
    boards = np.zeros((count, 2, h, w), np.float32)
    for r in range(count):
        for j, c in enumerate(nrng.permutation(h * w)[:rng.randint(4, 9)]):
            boards[r, j % 2, c // w, c % w] = 1
    pt = np.stack([nrng.permutation(h * w) + 1 for _ in range(count)]).reshape(count, h, w).astype(np.float32)
    vt = np.stack([nrng.permutation(np.arange(1, 60, 3))[:3] for _ in range(count)]).astype(np.float32)
    return dict(board_input=torch.tensor(boards), value_target=torch.tensor(vt / vt.sum(1, keepdims=True)),
                policy_target=torch.tensor(pt / pt.sum((1, 2), keepdims=True)))


def take(data, index, real):
    import torch
    out = {k: v[torch.tensor(index, dtype=torch.long)] for k, v in data.items()}
    if real is not None:
        out["is_real"] = torch.tensor(real, dtype=torch.bool)
    return out


def shards(rng, count):
    """The rows dealt to shards in any order, with padding copies between them."""
    order = list(range(count))
    rng.shuffle(order)
    parts = [[] for _ in range(rng.randint(1, 4))]
    for i in order:
        rng.choice(parts).append((i, True))
    for part in parts:
        for _ in range(rng.choice([0, 0, 1, 3])):
            part.insert(rng.randrange(len(part) + 1), (rng.randrange(count), False))
    return [([i for i, _ in p], [r for _, r in p]) for p in parts if p]


def combined(rng, stats):
    stats = list(stats)
    while len(stats) > 1:
        a = stats.pop(rng.randrange(len(stats)))
        b = stats.pop(rng.randrange(len(stats)))
        stats.append({k: a[k].combine(b[k]) for k in a})
    return stats[0]


def direct(check, rng, cases, notes):
    import torch
    from model import build_model
    from trainer.loss.supervised import compute_supervised_loss_statistics
    from trainer.metric.supervised import compute_supervised_metric_statistics
    for _ in range(300 if check.thorough else 60):
        seed, dim, hw = rng.randrange(1000), rng.choice([1, 3]), rng.choice(evallab.SIZES)
        net = build_model("verif_table", seed=seed, dim=dim)
        count = rng.randint(1, 9)
        data = random_rows(rng, hw, count)
        rows = [evallab.row(data, i, seed, dim) for i in range(count)]
        cross = rng.random() < 0.5
        loss = rng.choice(["CE", "KL", "MSE"]) + "+" + rng.choice(["CE", "KL", "MSE", "NONE"])
        ratio, reg = rng.choice([1, 3, 0.5]), rng.choice([0, 0, 1.5])
        dealt = shards(rng, count)
        for name in ("test", "loss"):
            stats = []
            try:
                with torch.no_grad():
                    for index, real in dealt:
                        part = take(data, index, None if all(real) and rng.random() < 0.5 else real)
                        out = net(part)
                        if name == "test":
                            stats.append(compute_supervised_metric_statistics(part, out, do_cross_eval=cross))
                        else:
                            stats.append(compute_supervised_loss_statistics(loss, part, out, policy_reg_lambda=reg,
                                                                            value_policy_ratio=ratio)[0])
                    found = {k: float(v.finalize()) for k, v in combined(rng, stats).items()}
            except Exception as exc:
                check.violation("statistics of a batch could not be computed", repr(exc)[:600], dict(loss=loss, dim=dim, dealt=dealt))
                continue
            cases.append(dict(rows=rows, batches=[list(range(1, count + 1))], weights=[1], entries=-1,
                              metrics=evallab.test_metrics(dim, cross) if name == "test" else evallab.loss_metrics(loss, ratio, reg),
                              report=evallab.scaled(found)))
            notes.append(dict(kind="direct " + name, dealt=dealt, hw=hw, dim=dim, loss=loss, reported=found))


# ------------------------------------------------------------------ validation loss = training loss
def heads(rng, b, hw, dim, torch, count_vq):
    """Auxiliary losses of every predefined kind, and the extra arguments that weigh them."""
    g = torch.Generator().manual_seed(rng.randrange(10**6))
    aux, extra = {}, {}

    def noise(*shape):
        return torch.randn(*shape, generator=g)
    kinds = dict(small_value=lambda: ("value_loss", noise(b, dim)), small_policy=lambda: ("policy_loss", noise(b, *hw)),
                 uncertainty=lambda: ("value_uncertainty_loss", (torch.rand(b, generator=g), noise(b, dim).squeeze(1) if dim == 1 else noise(b, dim), None)),
                 reg2=lambda: ("policy_reg", noise(b, *hw)))
    for name, make in kinds.items():
        if rng.random() < 0.5:
            aux[name] = make()
            if rng.random() < 0.5:
                extra[name + "_lambda"] = rng.choice([0.5, 2, 0.25])
    return aux, extra


def pick(value, index, torch):
    t = torch.tensor(index, dtype=torch.long)
    if isinstance(value, torch.Tensor):
        return value[t] if value.ndim else value
    if isinstance(value, tuple):
        return tuple(pick(v, index, torch) for v in value)
    if isinstance(value, dict):
        return {k: pick(v, index, torch) for k, v in value.items()}
    return value


class Quantizer:
    """What a vector quantizer reports: per-row distances and code probabilities in several slots."""

    def __init__(self, rng, b, torch):
        g = torch.Generator().manual_seed(rng.randrange(10**6))
        self.slots = []
        for k in range(rng.randint(1, 3)):
            self.slots.append(dict(x=torch.randn(b, 4, generator=g), q=torch.randn(b, 4, generator=g),
                                   prob=torch.softmax(2 * torch.randn(b, 5, generator=g), 1), weight=rng.choice([1.0, 0.5, 0.25]),
                                   commit=rng.choice([0.25, 1.0, 0.0]), entropy=rng.choice([0.0, 0.0, 0.1])))

    def payload(self, index, torch):
        t = torch.tensor(index, dtype=torch.long)
        slots, value = [], 0.0
        for k, s in enumerate(self.slots):
            square = (s["q"][t] - s["x"][t]).square()
            slot = dict(slot_id=f"layer{k:02d}", slot_weight=s["weight"], embed_sum=square.sum(), commit_sum=square.sum(),
                        elements=int(square.numel()), vectors=len(index), commitment_weight=s["commit"], entropy_weight=s["entropy"])
            loss = square.mean() * (1 + s["commit"])
            if s["entropy"]:
                slot["probability_sum"] = s["prob"][t].sum(0)
                mean = s["prob"][t].mean(0)
                loss = loss + s["entropy"] * (mean * mean.clamp_min(1e-7).log()).sum()
            slots.append(slot)
            value = value + s["weight"] * loss
        return "vq_loss", dict(value=value, slots=slots)


def against_training(check, rng, cases, notes):
    import torch
    from trainer.loss.supervised import compute_supervised_loss_statistics, compute_supervised_losses
    for _ in range(400 if check.thorough else 90):
        dim, hw, b = rng.choice([1, 3]), rng.choice([(5, 5), (4, 6)]), rng.randint(1, 8)
        data = random_rows(rng, hw, b)
        kd = rng.random() < 0.4
        tdim = dim
        g = torch.Generator().manual_seed(rng.randrange(10**6))
        if rng.random() < 0.3 and dim == 1 and not kd:
            data["value_target"] = torch.rand(b, 1, generator=g)
        out = dict(value=torch.randn(b, dim, generator=g) * 2, policy=torch.randn(b, *hw, generator=g) * 2)
        aux, extra = heads(rng, b, hw, dim, torch, rng.randint(0, 2))
        quantizer = None
        if rng.random() < 0.3:
            quantizer = Quantizer(rng, b, torch)
            aux["vq"] = quantizer.payload(list(range(b)), torch)
            if rng.random() < 0.3:
                extra["vq_lambda"] = 0.5
        if "uncertainty" in aux:
            target = data["value_target"]
            if dim == 1:
                target = target[:, 0] if target.shape[1] == 1 else (target[:, 0] - target[:, 1] + 1) / 2
            inputs = aux["uncertainty"][1][:2] + (target,)
            aux["uncertainty"] = ("value_uncertainty_loss", inputs)
            if rng.random() < 0.5:
                aux["relative"] = ("value_relative_uncertainty_loss", (
                    torch.rand(b, generator=g), inputs[1], torch.randn(inputs[1].shape, generator=g), target))
        if rng.random() < 0.4:
            mask = torch.ones(b, *hw)
            for r in range(b):
                if rng.random() < 0.6:
                    mask[r, :, hw[1] - 1] = 0
            out["board_mask"] = mask
            pt = data["policy_target"] * mask
            data["policy_target"] = pt / pt.sum((1, 2), keepdim=True)
        if aux:
            out["aux_losses"] = aux
        if rng.random() < 0.3:
            extra["ignore_forbidden_point_policy"] = True
            data["forbidden_point"] = (torch.rand(b, *hw, generator=g) < 0.15).to(torch.int8)
        v, p = rng.choice(["CE", "KL", "MSE"]), rng.choice(["CE", "KL", "MSE", "NONE"])
        if v == "CE" and rng.random() < 0.3:
            extra["value_focal_gamma"] = 2.0
        if p == "CE" and rng.random() < 0.3:
            extra["policy_focal_gamma"] = 1.5
        args = dict(policy_reg_lambda=rng.choice([0, 0, 0.5]), value_policy_ratio=rng.choice([1, 2, 0.5]), **extra)
        teacher = None
        if kd:
            teacher = dict(value=torch.randn(b, tdim, generator=g), policy=torch.randn(b, *hw, generator=g))
            args.update(kd_T=rng.choice([1.0, 2.0]), kd_alpha=rng.choice([0.0, 0.3, 1.0]))
        note = dict(loss=f"{v}+{p}", dim=dim, kd=kd, aux=sorted(aux), args={k: a for k, a in args.items()}, mask="board_mask" in out)
        try:
            total, parts, _ = compute_supervised_losses(f"{v}+{p}", data, out, teacher, **args)
        except Exception as exc:
            check.note("combinations the training loss refuses")
            check.sample(dict(note, refused=repr(exc)[:200]))
            continue
        stats = []
        dealt = shards(rng, b)
        try:
            for index, real in dealt:
                part = take(data, index, real)
                results = pick(out, index, torch)
                if quantizer is not None:
                    results["aux_losses"]["vq"] = quantizer.payload([i for i, r in zip(index, real) if r], torch)
                stats.append(compute_supervised_loss_statistics(
                    f"{v}+{p}", part, results, None if teacher is None else pick(teacher, index, torch), **args)[0])
            found = {k: float(x.finalize()) for k, x in combined(rng, stats).items()}
        except Exception as exc:
            check.violation("the validation loss fails where the training loss does not", repr(exc)[:500], dict(note, dealt=dealt))
            continue
        want = dict({k: float(x) for k, x in parts.items()}, total_loss=float(total))
        if any(abs(x) > 2000 or not math.isfinite(x) for x in want.values()):
            check.note("losses out of range")
            continue
        cases.append(dict(rows=[dict(vl=[0], vt=[0], pl=[0], pt=[0], logits=0, cells=1,
                                     parts={k: round(x * evallab.SCALE) for k, x in want.items()})],
                          batches=[[1]], weights=[1], entries=-1, report=evallab.scaled(found),
                          metrics=[evallab.metric(k, "mean", k, slack=6) for k in sorted(want)]))
        notes.append(dict(note, kind="training loss", dealt=dealt, training=want, validation=found))


# ------------------------------------------------------------------ whole evaluations on real ranks
def evaluations(check, rng):
    import torch
    from dataset import build_dataset
    jobs, facts = [], []
    root = os.path.join(check.tmp, "data")
    os.makedirs(root)
    for k in range(30 if check.thorough else 10):
        files = [(rng.choice(evallab.SIZES), rng.randint(1, 14)) for _ in range(rng.randint(1, 3))]
        folder = evallab.write(os.path.join(root, str(k)), rng, files)
        sizes = sorted({hw for hw, _ in files})
        mapped = rng.random() < 0.3 and len(sizes) == 1
        kind = "processed_katago_numpy" if mapped else "iterative_processed_katago_numpy"
        args = dict(boardsizes=sizes, fixed_side_input=False)
        loader = {} if mapped else {"batch_by_boardsize": True}
        train = evallab.write(os.path.join(root, f"t{k}"), rng, [(sizes[0], 30)])
        seed, dim = rng.randrange(1000), rng.choice([1, 3, 3])
        path = os.path.join(root, f"{k}.pth")
        evallab.table_checkpoint(path, seed, dim)
        batch, multiplier = rng.choice([6, 12]), rng.choice([1, 1, 2])
        built = build_dataset(kind, [folder], runtime_context=ds.context(batch * multiplier, 1, 0, 42, "test"), shuffle=False, **args)
        rows, batches = [], []
        for envelope in built:
            real = envelope.is_real.tolist()
            batches.append([])
            for i, flag in enumerate(real):
                if flag:
                    rows.append(evallab.row(envelope.data, i, seed, dim))
                    batches[-1].append(len(rows))
        base = dict(module="vlib.evallab", data=folder, train=train, kind=kind, args=args, table=seed, dim=dim, batch=batch,
                    multiplier=multiplier, checkpoint=path, loader=loader)
        limit = rng.choice([None, None, 1, 2])
        jobs.append(dict(base, run="run_test", cross=rng.random() < 0.5, max_batches=limit))
        facts.append((rows, batches[:limit] if limit else batches, None))
        loss = rng.choice(["CE", "KL", "MSE"]) + "+" + rng.choice(["CE", "KL", "MSE"])
        jobs.append(dict(base, run="run_validate", loss=loss, rundir=os.path.join(root, f"run{k}"),
                         loss_args=dict(value_policy_ratio=rng.choice([1, 3]), policy_reg_lambda=rng.choice([0, 0.5]))))
        facts.append((rows, batches, None))
    # loaders that are not aware of the ranks: some ranks have more batches than others
    for k in range(12 if check.thorough else 4):
        seed, dim, hw = rng.randrange(1000), 3, rng.choice(evallab.SIZES)
        folder = evallab.write(os.path.join(root, f"u{k}"), rng, [(hw, 12)])
        path = os.path.join(root, f"u{k}.pth")
        evallab.table_checkpoint(path, seed, dim)
        local = 2
        jobs.append(dict(module="vlib.evallab", data=folder, kind="iterative_processed_katago_numpy", run="run_test",
                         args=dict(boardsizes=[hw], fixed_side_input=False), table=seed, dim=dim, batch=6, multiplier=1,
                         checkpoint=path, cross=True, uneven=hw, max_batches=None, local=local))
        facts.append(None)
    return jobs, facts


def uneven(rng, job, world):
    """Loaders of every rank, and the rows and batches they add up to."""
    counts = [rng.randint(0, 3) for _ in range(world)]
    if not any(counts):
        counts[-1] = 2
    loaders, rows = [[] for _ in range(world)], []
    batches, weights = [], []
    for b in range(max(counts)):
        batches.append([])
        weights.append(0)
        for r in range(world):
            if b < counts[r]:
                data = random_rows(rng, job["uneven"], rng.choice([6 // world]))
                loaders[r].append(data)
                weights[-1] += 1
                for i in range(len(data["board_input"])):
                    rows.append(evallab.row(data, i, job["table"], job["dim"]))
                    batches[-1].append(len(rows))
    return loaders, rows, batches, weights


def distributed(check, rng, cases, notes):
    jobs, facts = evaluations(check, rng)
    for world in (1, 2, 3):
        mine = []
        truths = []
        for job, fact in zip(jobs, facts):
            if "uneven" in job:
                loaders, rows, batches, weights = uneven(rng, job, world)
                mine.append(dict(job, loaders=loaders))
                truths.append((rows, batches, weights))
            else:
                mine.append(job)
                truths.append(fact)
        for job, (rows, batches, weights), got in zip(mine, truths, dist.run(check, world, mine)):
            note = {k: v for k, v in job.items() if k not in ("loaders", "module")}
            note["world"] = world
            bad = got if isinstance(got, str) else next((r["raised"] for r in got if "raised" in r), None)
            if bad is not None:
                check.violation("an evaluation failed", bad, note)
                continue
            reports = []
            if job["run"] == "run_test":
                if not got[0]["written"]:
                    check.violation("the result file differs from the report", "", note)
                if any(r["report"] is not None for r in got[1:]):
                    check.violation("a rank other than the main one returned a report", "", note)
                reports.append((got[0]["report"], got[0]["entries"], evallab.test_metrics(job["dim"], job["cross"])))
            else:
                if len(got[0]["lines"]) != 2:
                    check.violation("the log does not have one line per validation", str(len(got[0]["lines"])), note)
                    continue
                for line in got[0]["lines"]:
                    entries = line.pop("entries")
                    reports.append((line, entries, evallab.loss_metrics(job["loss"], job["loss_args"]["value_policy_ratio"],
                                                                       job["loss_args"]["policy_reg_lambda"])))
            for found, entries, metrics in reports:
                cases.append(dict(rows=rows, batches=batches, weights=weights or [1] * len(batches), entries=entries,
                                  metrics=metrics, report=evallab.scaled(found)))
                notes.append(dict(note, reported=found, entries=entries))


def body(check):
    model(check)
    env.activate(check.tmp)
    evallab.register()
    rng = check.rng
    cases, notes = [], []
    direct(check, rng, cases, notes)
    against_training(check, rng, cases, notes)
    distributed(check, rng, cases, notes)

    def on_error(item):
        note, case = notes[item["case"] - 1], cases[item["case"] - 1]
        detail = dict(note)
        if item["step"] > 1:
            detail["metric"] = case["metrics"][item["step"] - 2]
        check.violation(item["clause"], json.dumps(detail, default=repr)[:900], dict(note, case=case))
    traces.validate(check, "MetricsTrace", cases, lengths=[len(c["metrics"]) + 2 for c in cases], label="reports", on_error=on_error)
    for note in notes[:1] + notes[-2:]:
        check.sample(note)


report.main(PID, body)
