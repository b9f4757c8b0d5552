"""Evaluation on data whose logits and targets the harness knows."""
import json
import os
import shutil
import tempfile

import numpy as np
import torch

TABLE = 97
SIZES = [(5, 5), (6, 6), (4, 4)]


def tables(seed, dim):
    """Logits as hundredths: no two of a row are equal."""
    rng = np.random.default_rng(seed)
    values = np.stack([rng.permutation(np.arange(-150, 151, 7))[:dim] for _ in range(TABLE)])
    policy = {hw: np.stack([rng.permutation(hw[0] * hw[1]) * 9 - 100 for _ in range(TABLE)]) for hw in SIZES}
    return values, policy


def key_of(board):
    """A number read off a batch of boards (B, 2, H, W)."""
    b, c, h, w = board.shape
    weights = (torch.arange(c * h * w, dtype=torch.float64) * 31 % 89 + 1).reshape(c, h, w)
    return ((board.double() * weights).sum((1, 2, 3)).long()) % TABLE


def register():
    import torch.nn as nn
    from model import MODELS
    if "verif_table" in MODELS:
        return

    @MODELS.register("verif_table")
    class Table(nn.Module):
        def __init__(self, seed=0, dim=3):
            super().__init__()
            self.zero = nn.Parameter(torch.zeros(()))
            self.values, self.policies = tables(seed, dim)

        def forward(self, data):
            board = data["board_input"].cpu()
            keys = key_of(board).numpy()
            hw = tuple(board.shape[2:])
            value = torch.tensor(self.values[keys] / 100.0, dtype=torch.float32)
            policy = torch.tensor(self.policies[hw][keys] / 100.0, dtype=torch.float32).reshape(-1, *hw)
            return {"value": value + self.zero * 0, "policy": policy + self.zero * 0}

        @property
        def name(self):
            return "verif_table"


def write(folder, rng, files):
    """Processed files whose targets have no ties."""
    os.makedirs(folder)
    nrng = np.random.default_rng(rng.getrandbits(50))
    for k, ((h, w), n) in enumerate(files):
        bf = np.zeros((n, 2, h, w), np.uint8)
        for r in range(n):
            for j, c in enumerate(nrng.permutation(h * w)[:rng.randint(4, 9)]):
                bf[r, j % 2, c // w, c % w] = 1
        pt = np.stack([nrng.permutation(h * w) + 1 for _ in range(n)]).reshape(n, h, w).astype(np.float32)
        vt = np.stack([nrng.permutation(np.arange(1, 60, 3))[:3] for _ in range(n)]).astype(np.float32)
        np.savez(os.path.join(folder, f"f{k}.npz"), bf=bf, gf=nrng.choice([-1, 1], (n, 1)).astype(np.float32),
                 vt=vt / vt.sum(1, keepdims=True), pt=pt / pt.sum((1, 2), keepdims=True))
    return folder


SCALE = 100000


def _log_softmax(x):
    x = x - x.max()
    return x - np.log(np.exp(x).sum())


def row(data, i, seed, dim):
    """What one row contributes, in exact or double arithmetic."""
    values, policies = tables(seed, dim)
    data = {k: torch.as_tensor(data[k][i]).unsqueeze(0) for k in ("board_input", "value_target", "policy_target")}
    board, i = data["board_input"], 0
    k = int(key_of(board)[0])
    hw = tuple(board.shape[2:])
    vl, pl = values[k], policies[hw][k]
    vt = data["value_target"][i].double().numpy()
    pt = data["policy_target"][i].double().numpy().reshape(-1)
    v, p = vl / 100.0, pl / 100.0
    lp = _log_softmax(p)
    parts = dict(ploss_CE=float(-(pt * lp).sum()), ploss_KL=float((pt * (np.log(np.maximum(pt, 1e-8)) - lp)).sum()),
                 ploss_MSE=float(((np.exp(lp) - pt) ** 2).mean()), ploss_NONE=0.0)
    tw = (vt[0] - vt[1] + 1) / 2
    if dim == 1:
        q = 1 / (1 + np.exp(-v[0]))
        ce = -(tw * np.log(q) + (1 - tw) * np.log(1 - q))
        parts.update(vloss_CE=ce, vloss_KL=ce + tw * np.log(tw) + (1 - tw) * np.log(1 - tw), vloss_MSE=(q - tw) ** 2,
                     win_mse=(q - tw) ** 2)
        prob, target = np.array([q]), np.array([tw])
    else:
        lv = _log_softmax(v)
        prob, target = np.exp(lv), vt
        ce = float(-(vt * lv).sum())
        w = (prob[0] - prob[1] + 1) / 2
        parts.update(vloss_CE=ce, vloss_KL=ce + float((vt * np.log(np.maximum(vt, 1e-8))).sum()), vloss_MSE=(w - tw) ** 2,
                     win_mse=(w - tw) ** 2, draw_mse=(prob[2] - vt[2]) ** 2)
    err = np.abs(prob - target)
    rel = err / (np.abs(prob) + 1e-4)
    parts.update(abs_mean=err.mean(), abs_max=err.max(), rel_mean=rel.mean() / 100, rel_max=rel.max() / 100)
    order = np.argsort(np.argsort(pt))
    return dict(vl=[int(x) for x in vl], vt=[round(float(x) * SCALE) for x in vt], pl=[int(x) for x in pl],
                pt=[int(x) for x in order], logits=int(pl.sum()) * 100, cells=len(pl),
                parts={n: round(float(x) * SCALE) for n, x in parts.items()})


def scaled(report):
    out = {}
    for name, value in report.items():
        if name.startswith("value_relerr"):
            value = value / 100
        out[name] = [round(value * SCALE)] if np.isfinite(value) else []
    return out


def metric(name, kind, field="", second="", w=(), slack=4):
    return dict(name=name, kind=kind, field=field, second=second, w=list(w), slack=slack)


def test_metrics(dim, cross):
    out = [metric("lossCE_value_loss", "mean", "vloss_CE"), metric("lossCE_policy_loss", "mean", "ploss_CE"),
           metric("lossCE_total_loss", "total", "vloss_CE", "ploss_CE", (1000, 1000, 0), 40),
           metric("bestmove_acc", "best"), metric("top2move_acc", "top2"), metric("top3move_acc", "top3"),
           metric("winrate_acc", "win"), metric("winrate_mse", "mean", "win_mse")]
    if dim == 3:
        out += [metric("drawrate_acc", "draw"), metric("drawrate_mse", "mean", "draw_mse")]
    if cross:
        out += [metric("value_abserr_mean", "mean", "abs_mean"), metric("value_abserr_max", "max", "abs_max"),
                metric("value_relerr_mean", "mean", "rel_mean"), metric("value_relerr_max", "max", "rel_max")]
    return out


def loss_metrics(loss_type, ratio, reg):
    v, p = loss_type.split("+")
    weights = (round(2000 * ratio / (ratio + 1)), round(2000 / (ratio + 1)), round(1000 * reg))
    out = [metric("value_loss", "mean", "vloss_" + v), metric("policy_loss", "mean", "ploss_" + p),
           metric("total_loss", "total", "vloss_" + v, "ploss_" + p, weights, 60)]
    if reg:
        out.append(metric("policy_reg", "reg", slack=30))
    return out


# ---------------------------------------------------------------- inside a process group
def table_checkpoint(path, seed, dim):
    from model import build_model
    register()
    model = build_model("verif_table", seed=seed, dim=dim)
    torch.save({"model": model.state_dict(), "metadata": {"iteration": "1", "epoch": "1"}}, path)


def reset():
    from .train import reset_accelerate
    reset_accelerate()


def run_test(job, rank, world):
    from trainer.supervised import SupervisedTrainer
    register()
    reset()
    trainer = SupervisedTrainer.init_for_evaluation(
        checkpoint=job["checkpoint"], model_type="verif_table", model_args=dict(seed=job["table"], dim=job["dim"]),
        test_datas=[job["data"]], dataset_type=job["kind"], dataset_args=job["args"], batch_size=job["batch"],
        eval_bs_multipler=job["multiplier"], num_worker=0, use_cpu=True,
        dataloader_args=job.get("loader", {}))
    if job.get("loaders") is not None:
        trainer.test_loader = job["loaders"][rank]
    result = os.path.join(tempfile.gettempdir(), f"verif-result-{os.getpid()}.json")
    try:
        found = trainer.test(max_batches=job.get("max_batches"), result_file=result,
                             **({"do_cross_eval": True} if job["cross"] else {}))
        out = {"report": found}
        if rank == 0:
            saved = json.load(open(result))
            out["entries"], out["written"] = saved["num_entries"], saved["metrics"] == found
    finally:
        if os.path.exists(result):
            os.remove(result)
    return out


def run_validate(job, rank, world):
    from trainer.supervised import SupervisedTrainer
    register()
    reset()
    rundir = job["rundir"] + f"-{world}"
    try:
        trainer = SupervisedTrainer(
            rundir=rundir, use_cpu=True, dataset_type=job["kind"], dataset_args=job["args"], train_datas=[job["train"]],
            val_datas=[job["data"]], model_type="verif_table", model_args=dict(seed=job["table"], dim=job["dim"]),
            loss_type=job["loss"], loss_args=job["loss_args"], num_worker=0, log_interval=10**6, show_interval=10**6,
            save_interval=10**6, temp_save_interval=10**6, val_interval=1, performance_level=0, batch_size=job["batch"],
            eval_bs_multipler=job["multiplier"], iterations=2, dataloader_args=job.get("loader", {}))
        if job.get("loaders") is not None:
            trainer.val_loader = job["loaders"][rank]
        trainer.run()
        out = {}
        if rank == 0:
            lines = [json.loads(x) for x in open(os.path.join(rundir, "training_log.jsonl"))]
            out["lines"] = [dict(x["val_loss"], entries=x["num_val_entries"]) for x in lines if "val_loss" in x]
        return out
    finally:
        if world > 1:
            torch.distributed.barrier()
        if rank == 0:
            shutil.rmtree(rundir, ignore_errors=True)
