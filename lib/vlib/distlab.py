"""One session of the real trainer on one rank of a process group, observed."""
import json
import os
import random
import shutil
import sys

import numpy as np
import torch

from . import session as sessions, train

BASE = dict(use_cpu=True, model_type="verif_tiny", num_worker=0, performance_level=0)
WATCH = {"root": None, "writes": []}
HOOKED = []


def hook():
    """Remember every file this process creates or changes below the watched folder."""
    if HOOKED:
        return
    HOOKED.append(1)

    def audit(event, args):
        root = WATCH["root"]
        if root is None:
            return
        path = None
        if event == "open":
            path, mode, flags = args
            writing = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if not writing:
                return
        elif event in ("os.rename", "os.remove", "os.rmdir", "os.link", "os.truncate"):
            path = args[1] if event in ("os.rename", "os.link") else args[0]
        if isinstance(path, (str, bytes, os.PathLike)):
            path = os.path.abspath(os.fsdecode(path))
            if path.startswith(root + os.sep):
                WATCH["writes"].append(path[len(root) + 1:])
    sys.addaudithook(audit)


def fire(faults, rank, at, it, micro=0):
    for f in faults:
        if f["rank"] == rank and f["at"] == at and f["it"] == it and f.get("micro", 0) == micro:
            return f["kind"]
    return None


class Source:
    """The trainer's loader, failing at one micro-batch on one rank."""

    def __init__(self, inner, lab):
        self.__dict__.update(inner=inner, lab=lab)

    def __getattr__(self, name):
        return getattr(self.__dict__["inner"], name)

    def __setattr__(self, name, value):
        setattr(self.__dict__["inner"], name, value)

    def __len__(self):
        return len(self.inner)

    def __iter__(self):
        inner = iter(self.inner)
        try:
            while True:
                self.lab.fault("fetch")
                try:
                    item = next(inner)
                except StopIteration:
                    return
                yield item
        finally:
            if hasattr(inner, "close"):
                inner.close()


class Lab:
    def __init__(self, job, rank):
        self.job, self.rank = job, rank
        self.accum = job["config"].get("gradient_accumulation_steps", 1)
        self.done = 0
        self.events = []
        self.wrapped = False
        self.trainer = None
        self.batches = []

    def place(self):
        return self.done // self.accum + 1, self.done % self.accum

    def fault(self, at):
        it, micro = self.place()
        kind = fire(self.job.get("faults", []), self.rank, at, it, micro)
        if kind == "error":
            raise train.Fault(f"injected at {at}")
        if kind == "memory":
            raise MemoryError(f"injected at {at}")
        return kind

    def weights(self, trainer):
        model = trainer._unwrap(trainer.model)
        codebooks = {k: v for k, v in model.named_buffers() if k.startswith("vq.") or k.startswith("other.")}
        return train.digest([{k: v for k, v in model.named_parameters()}, codebooks,
                             {n: o.state_dict() for n, o in trainer.optimizers.items()},
                             {n: s.state_dict() for n, s in trainer.schedulers.items()}])

    def step(self, trainer):
        st = trainer.state
        event = dict(ev="step", it=int(st.iteration), rows=int(st.rows), w=self.weights(trainer), r=train.rng_digest(),
                     batches=self.batches)
        model = trainer._unwrap(trainer.model)
        event["vector"] = torch.cat([p.detach().reshape(-1) for _, p in sorted(model.named_parameters())]).double().numpy()
        self.batches = []
        self.events.append(event)


def make(lab):
    from trainer.supervised import SupervisedTrainer

    class Ranked(SupervisedTrainer):
        def on_before_step(self, data):
            count = len(data["board_input"])
            lab.batches.append(sessions.row_digests(data, count))
            lab.fault("before")
            return super().on_before_step(data)

        def train_step(self, data, **kwargs):
            # every rank uses its generators differently
            noise = sum(train.draw() for _ in range(rank_draws)) if (rank_draws := lab.job.get("noise", 0) * (lab.rank + 1)) else 1.0
            loss, losses, aux = super().train_step(data, **kwargs)
            it, micro = lab.place()
            kind = lab.fault("forward")
            if kind == "nan-loss":
                loss = loss * float("nan")
            elif kind == "inf-metric":
                losses = dict(losses)
                losses[sorted(losses)[0]] = losses[sorted(losses)[0]] * float("inf")
            elif kind == "nan-grad":
                loss = train.BadGrad.apply(loss)
            lab.micro_done = micro
            lab.done += 1
            if not lab.wrapped:
                lab.wrapped = True
                for opt in self.optimizers.values():
                    real = opt.step

                    def stepping(*args, _real=real, **kw):
                        lab.done -= 1
                        try:
                            if lab.place()[1] == lab.accum - 1:
                                kind = fire(lab.job.get("faults", []), lab.rank, "optim", lab.place()[0])
                                if kind:
                                    raise train.Fault("injected at optim")
                        finally:
                            lab.done += 1
                        return _real(*args, **kw)
                    opt.step = stepping
            return loss * noise, losses, aux

        def on_after_step(self, data):
            super().on_after_step(data)
            it = lab.done // lab.accum
            lab.step(self)
            if fire(lab.job.get("faults", []), lab.rank, "after", it):
                raise train.Fault("injected at after")

        def validate_step(self, data, **kwargs):
            # the forward pass of a model with buffers is itself a meeting of the ranks, so fail after it
            out = super().validate_step(data, **kwargs)
            if fire(lab.job.get("faults", []), lab.rank, "val", int(self.state.iteration)):
                raise train.Fault("injected at val")
            return out
    return Ranked


def run(job, rank, world):
    """One session; the first rank also reports the log lines and the files."""
    train.register()
    train.reset_accelerate()
    hook()
    root = os.path.abspath(job["rundir"])
    if job.get("fresh"):
        if world > 1:
            torch.distributed.barrier()
        if rank == 0:
            shutil.rmtree(root, ignore_errors=True)
        if world > 1:
            torch.distributed.barrier()
    WATCH.update(root=root, writes=[])
    # a fresh process: no generator state survives, and none is shared
    random.seed(hash((rank, job["salt"])))
    np.random.seed(hash((rank, job["salt"], 1)) % 2**32)
    torch.manual_seed(hash((rank, job["salt"], 2)) % 2**40)
    lab = Lab(job, rank)
    how, message, start = "done", "", None
    save = torch.save
    try:
        trainer = lab.trainer = make(lab)(rundir=root, **{**BASE, **job["config"]})
        start = int(trainer.state.iteration)
        lab.done = start * lab.accum
        trainer.train_loader = Source(trainer.train_loader, lab)

        def saving(*args, **kwargs):
            if fire(job.get("faults", []), rank, "write", lab.done // lab.accum):
                raise OSError(28, "No space left on device")
            return save(*args, **kwargs)
        torch.save = saving
        trainer.run()
        end = int(trainer.state.iteration)
    except BaseException as exc:
        how, message = "error", f"{type(exc).__name__}: {exc}"[:600]
        end = -1
    finally:
        torch.save = save
    writes, WATCH["root"] = sorted(set(WATCH["writes"])), None
    out = dict(start=-1 if start is None else start, events=lab.events, how=how, message=message, writes=writes, end=end)
    if world > 1:
        torch.distributed.barrier()
    if rank == 0:
        log = os.path.join(root, "training_log.jsonl")
        out["log"] = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
        folder = os.path.join(root, "ckpts")
        out["files"] = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
    if world > 1:
        torch.distributed.barrier()
    return out
