"""The real trainer on small data, with faults at chosen points and everything observable recorded.

A Lab is one run directory; session() runs the trainer once (a fresh object, as
a fresh process would build it) and returns the events it showed.  A kill is
simulated by an exception after which nothing of the session reaches the disk.
"""
import contextlib
import copy
import hashlib
import io
import os
import random
import shutil
import warnings

import numpy as np
import torch

from . import report, session as sessions


class Kill(BaseException):
    pass


class Fault(Exception):
    pass


def digest(value):
    out = hashlib.sha256()

    def add(v):
        if isinstance(v, torch.Tensor):
            t = v.detach().cpu().contiguous()
            out.update(f"{t.dtype}{tuple(t.shape)}".encode())
            out.update(t.numpy().tobytes() if t.dtype != torch.bfloat16 else t.view(torch.int16).numpy().tobytes())
        elif isinstance(v, dict):
            out.update(b"{")
            for k in sorted(v, key=repr):
                out.update(repr(k).encode())
                add(v[k])
        elif isinstance(v, (list, tuple)):
            out.update(b"[")
            for x in v:
                add(x)
        elif isinstance(v, (set, frozenset)):
            add(sorted(v, key=repr))
        elif isinstance(v, np.ndarray):
            out.update(str(v.dtype).encode() + v.tobytes())
        elif isinstance(v, float):
            out.update(repr(float(v)).encode())
        else:
            out.update(repr(v).encode())
    add(value)
    return out.hexdigest()[:12]


def rng_digest():
    words = np.random.get_state()
    return digest([repr(random.getstate()), repr(words[1].tolist()), [float(v) for v in words[2:]], torch.get_rng_state()])


def register():
    """A small model with dropout and a running buffer, so RNG and buffers matter."""
    import torch.nn as nn
    import torch.nn.functional as F
    from model import MODELS
    if "verif_tiny" in MODELS:
        return

    @MODELS.register("verif_tiny")
    class Tiny(nn.Module):
        def __init__(self, dim=3, norm=True, clip=None, drop=0.25):
            super().__init__()
            self.drop = drop
            self.conv = nn.Conv2d(3, dim, 3, padding=1, bias=not norm)  # no gradient that is only rounding noise
            self.bn = nn.BatchNorm2d(dim) if norm else nn.Identity()
            self.head = nn.Conv2d(dim, 1, 1, bias=False)
            self.value = nn.Linear(dim, 3)
            if clip:
                self.weight_clipping = [{"params": ["conv.weight"], "min_weight": -clip, "max_weight": clip}]

        def forward(self, data):
            board = data["board_input"].float()
            side = data["stm_input"].float().reshape(-1, 1, 1, 1)
            x = torch.cat([board, side.expand(-1, 1, *board.shape[2:])], 1)
            x = F.dropout(torch.relu(self.bn(self.conv(x))), self.drop, self.training)
            return {"value": self.value(x.mean((2, 3))), "policy": self.head(x)[:, 0]}

        @property
        def name(self):
            return "verif_tiny"


def reset_accelerate():
    from accelerate.state import AcceleratorState, GradientState
    AcceleratorState._reset_state(True)
    GradientState._reset_state()


class Disk:
    """Stands between the trainer and its checkpoint directory while a session runs."""

    def __init__(self, folder, seen, plan):
        self.folder = os.path.abspath(folder)
        self.seen = seen                    # called after every change
        self.plan = plan                    # called before/inside every change: returns None | "kill" | "error"
        self.dead = False
        self.ops = 0

    def inside(self, path, dir_fd=None):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if dir_fd is not None:
            return self.dirfd_inside(dir_fd)
        try:
            return os.path.abspath(os.fspath(path)).startswith(self.folder)
        except TypeError:
            return False

    def dirfd_inside(self, fd):
        try:
            return os.path.realpath(f"/proc/self/fd/{fd}").startswith(os.path.realpath(self.folder))
        except OSError:
            return False

    def gate(self, name, path):
        if self.dead:
            raise Kill("after the crash")
        self.ops += 1
        what = self.plan(name, os.fspath(path) if not isinstance(path, int) else "")
        if what == "torn" and name != "save":
            what = "kill"
        if what == "kill":
            self.dead = True
            raise Kill(f"killed at {name}")
        if what == "error":
            raise OSError(28, "No space left on device", str(path))
        return what

    def __enter__(self):
        self.real = {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "link")}
        self.save = torch.save
        disk = self

        def two(name):
            def call(src, dst, *args, **kwargs):
                if not disk.inside(dst, kwargs.get("dst_dir_fd")):
                    return disk.real[name](src, dst, *args, **kwargs)
                disk.gate(name, dst)
                disk.real[name](src, dst, *args, **kwargs)
                disk.seen()
            return call

        def one(name):
            def call(path, *args, **kwargs):
                if not disk.inside(path, kwargs.get("dir_fd")):
                    return disk.real[name](path, *args, **kwargs)
                disk.gate(name, path)
                disk.real[name](path, *args, **kwargs)
                disk.seen()
            return call

        def save(obj, f, *args, **kwargs):
            target = f if isinstance(f, (str, os.PathLike)) else None
            if target is None:
                try:
                    target = os.path.realpath(f"/proc/self/fd/{f.fileno()}")
                except Exception:
                    return disk.save(obj, f, *args, **kwargs)
            if not disk.inside(target):
                return disk.save(obj, f, *args, **kwargs)
            buffer = io.BytesIO()
            disk.save(obj, buffer, *args, **kwargs)
            data = buffer.getvalue()
            try:
                what = disk.gate("save", target)
            except (Kill, OSError):
                # the crash or the full disk leaves a torn file behind
                disk.write(f, data[:len(data) // 2])
                disk.seen()
                raise
            if what == "torn":
                disk.dead = True
                raise Kill
            disk.write(f, data)
            disk.seen()

        for name in ("replace", "rename", "link"):
            setattr(os, name, two(name))
        for name in ("remove", "unlink"):
            setattr(os, name, one(name))
        torch.save = save
        return self

    @staticmethod
    def write(f, data):
        if isinstance(f, (str, os.PathLike)):
            with open(f, "wb") as stream:
                stream.write(data)
        else:
            f.write(data)
            f.flush()

    def __exit__(self, *exc):
        for name, func in self.real.items():
            setattr(os, name, func)
        torch.save = self.save


def draw():
    # normal deviates come in pairs: a generator's state is more than its words
    return 1 + 0.1 * random.random() + 0.05 * random.gauss(0, 1) % 0.1 + 0.05 * float(np.random.randn()) % 0.1


def make_probe():
    from trainer.supervised import SupervisedTrainer

    class Probe(SupervisedTrainer):
        """Records what a step consumes and produces through the trainer's own extension hooks."""
        lab = None

        @property
        def iterations(self):
            if self.__dict__.get("_armed"):
                self.lab.between(self)
            return self.__dict__["_iterations"]

        @iterations.setter
        def iterations(self, value):
            self.__dict__["_iterations"] = value

        def on_before_step(self, data):
            extra = super().on_before_step(data)
            self.lab.micro(self, data)
            return extra

        def train_step(self, data, **kwargs):
            # noise from every generator whose state a checkpoint has to carry
            self.lab.before_forward(data)
            noise = draw()
            loss, losses, aux = super().train_step(data, **kwargs)
            return self.lab.forward(self, loss * noise, losses, aux)

        def on_after_step(self, data):
            super().on_after_step(data)
            self.lab.stepped(self)

        def validate_step(self, data, **kwargs):
            self.lab.validating(self)
            return super().validate_step(data, **kwargs)
    return Probe


class BadGrad(torch.autograd.Function):
    @staticmethod
    def forward(ctx, x):
        return x.clone()

    @staticmethod
    def backward(ctx, grad):
        return grad * float("nan")


class Loader:
    """The training data loader with a fault in it."""

    def __init__(self, inner, lab):
        self.__dict__["inner"] = inner
        self.__dict__["lab"] = lab

    def __getattr__(self, name):
        return getattr(self.__dict__["inner"], name)

    def __setattr__(self, name, value):
        setattr(self.__dict__["inner"], name, value)

    def __len__(self):
        return len(self.inner)

    def __iter__(self):
        inner = iter(self.inner)
        try:
            while True:
                self.lab.fetching()
                try:
                    item = next(inner)
                except StopIteration:
                    return
                yield item
        finally:
            if hasattr(inner, "close"):
                inner.close()


class Lab:
    model_type = "verif_tiny"

    def __init__(self, root, fixture, config, val=None):
        register()
        self.root, self.fixture, self.config, self.val = root, fixture, dict(config), val
        self.accum = config.get("gradient_accumulation_steps", 1)
        self.ref = None
        self.goods = {}

    # ---- observations
    def wsig(self, trainer):
        model = {n: trainer._unwrap(m).state_dict() for n, m in trainer.models.items()}
        return digest([model, {n: o.state_dict() for n, o in trainer.optimizers.items()},
                       {n: s.state_dict() for n, s in trainer.schedulers.items()}])

    def msig(self, trainer):
        return digest({n: trainer._unwrap(m).state_dict() for n, m in trainer.models.items()})

    def emit(self, ev, **data):
        self.events.append({"ev": ev, **data})

    def fires(self, at, it=None, micro=None):
        for f in self.faults:
            if f["at"] == at and (it is None or f["it"] == it) and (micro is None or f.get("micro", 0) == micro):
                self.faults.remove(f)
                self.emit("fault", what=f["kind"], at=at, it=f["it"])
                return f["kind"]
        return None

    def strike(self, kind):
        if kind == "kill":
            self.disk.dead = True
            raise Kill()
        if kind == "error":
            raise Fault("injected")
        if kind == "interrupt":
            raise KeyboardInterrupt

    def position(self):
        done = self.done
        return done // self.accum + 1, done % self.accum

    def fetching(self):
        it, micro = self.position()
        if micro == 0:
            self.committed()
        self.strike(self.fires("fetch", it, micro))

    def micro(self, trainer, data):
        it, micro = self.position()
        if micro == 0:
            self.quiet()
        self.emit("micro", it=int(trainer.state.iteration), m=micro,
                  batch=sessions.data_digest(data) if isinstance(data, dict) else "?")
        self.strike(self.fires("before", it, micro))

    def before_forward(self, data):
        if self.recording is not None:
            self.recording["data"].append({k: v.clone() if isinstance(v, torch.Tensor) else v for k, v in data.items()})
            self.recording["rng"].append((random.getstate(), np.random.get_state(), torch.get_rng_state()))

    def forward(self, trainer, loss, losses, aux):
        it, micro = self.position()
        kind = self.fires("forward", it, micro)
        if kind == "nan-loss":
            loss = loss * float("nan")
        elif kind == "inf-metric":
            losses = dict(losses)
            name = sorted(losses)[0]
            losses[name] = losses[name] * float("inf")
        elif kind == "inf-aux":
            aux = dict(aux, spoiled=torch.full_like(loss.detach(), float("-inf")))
        elif kind == "nan-grad":
            loss = BadGrad.apply(loss)
        elif kind == "huge-grad":
            loss = loss * 1e30 * 1e30 * 1e-22      # finite loss times a factor that overflows on the way back
        else:
            self.strike(kind)
        self.done += 1
        if micro == self.accum - 1 and not self.wrapped:
            self.wrapped = True
            self.wrap_optimizer(trainer)
        return loss, losses, aux

    def wrap_optimizer(self, trainer):
        for opt in trainer.optimizers.values():
            real = opt.step
            lab = self

            def step(*args, _real=real, **kwargs):
                it = (lab.done - 1) // lab.accum + 1
                if lab.done % lab.accum == 0:
                    lab.strike(lab.fires("optim", it))
                out = _real(*args, **kwargs)
                if lab.done % lab.accum == 0:
                    lab.strike(lab.fires("optimized", it))
                return out
            opt.step = step

    def stepped(self, trainer):
        it = self.done // self.accum
        self.strike(self.fires("after", it))
        self.emit("step", it=int(trainer.state.iteration), w=self.wsig(trainer), r=rng_digest())
        if self.recording is not None:
            self.recording["m"].append(self.msig(trainer))
            self.recording["o"].append(digest([{n: o.state_dict() for n, o in trainer.optimizers.items()}]))
            self.recording["weights"].append({k: v.clone() for k, v in trainer._unwrap(trainer.model).state_dict().items()})

    def validating(self, trainer):
        self.emit("val", it=int(trainer.state.iteration), w=self.wsig(trainer))
        self.strike(self.fires("val", int(trainer.state.iteration)))

    def committed(self):
        """The iteration before the one that begins now is over."""
        st = self.trainer.state
        it = int(st.iteration)
        if it != self.seen_it:
            self.seen_it = it
            self.emit("commit", it=it, epoch=int(st.epoch), rows=int(st.rows))

    def between(self, trainer):
        # the loop condition is read while the run may be saved as it stands
        it = int(trainer.state.iteration)
        if not getattr(trainer, "_checkpoint_safe", False) or it >= trainer.__dict__["_iterations"]:
            return
        if any(f["at"] == "between" and f["it"] == it + 1 for f in self.faults):
            self.committed()
            self.strike(self.fires("between", it + 1))

    # ---- the checkpoint directory
    def listing(self):
        folder = os.path.join(self.root, "ckpts")
        files, spare = [], 0
        for name in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
            path = os.path.join(folder, name)
            stem, ext = os.path.splitext(name)
            digits = stem.rsplit("_", 1)[-1]
            if ext == ".pt" and name.startswith(("state_", "ckpt_")) and digits.isdigit():
                kind = "state" if name.startswith("state_") else "model"
                files.append({"kind": kind, "it": int(digits), "good": self.good(kind, int(digits), path)})
            else:
                spare += 1
        return {"files": files, "spare": spare}

    def good(self, kind, it, path):
        """The file holds exactly what the uninterrupted run had at that iteration."""
        info = os.stat(path)
        key = (path, info.st_size, info.st_mtime_ns, info.st_ino)
        if key in self.goods:
            return self.goods[key]
        good = False
        if self.ref is None:
            return True
        try:
            data = torch.load(path, map_location="cpu", weights_only=True)
            if 0 <= it < len(self.ref["m"]):
                if kind == "model":
                    good = (digest({self.model_type: data["model"]}) == self.ref["m"][it]
                            and int(data["iteration"]) == it
                            and int(data["rows"]) == self.ref["rows"][it]
                            and int(data["epoch"]) == self.ref["epoch"][it])
                else:
                    meta = data["metadata"]
                    good = (int(meta["iteration"]) == it and int(meta["rows"]) == self.ref["rows"][it]
                            and int(meta["epoch"]) == self.ref["epoch"][it]
                            and digest([data["optimizers"]]) == self.ref["o"][it])
        except Exception:
            good = False
        self.goods[key] = good
        return good

    def seen(self):
        self.emit("dir", quiet=False, **self.listing())

    def quiet(self):
        self.emit("dir", quiet=True, **self.listing())

    def writing(self, name, path):
        """Decide whether a change of the checkpoint directory is hit by the fault."""
        it = self.done // self.accum
        for f in self.faults:
            if f["at"] == "write" and f["it"] == it:
                if f.get("op", 0) > 0:
                    f["op"] -= 1
                    return None
                self.faults.remove(f)
                self.emit("fault", what=f["kind"], at="write", it=f["it"])
                return f["kind"]
        return None

    # ---- running
    def build(self):
        reset_accelerate()
        Probe = make_probe()
        Probe.lab = self
        options = dict(
            rundir=self.root, use_cpu=True, dataset_type=self.fixture.dataset_type, train_datas=list(self.fixture.paths),
            dataset_args=dict(self.fixture.kwargs), model_type=self.model_type, num_worker=0, log_interval=10**6,
            show_interval=10**6, save_interval=10**6, temp_save_interval=10**6, val_interval=10**6, performance_level=0)
        if self.val is not None:
            options.update(val_datas=list(self.val.paths), val_dataset_type=self.val.dataset_type,
                           val_dataset_args=dict(self.val.kwargs))
        options.update(self.config)
        return Probe(**options)

    def session(self, faults=(), seconds=60):
        """One run of the trainer; returns its events."""
        self.events, self.wrapped, self.done, self.seen_it = [], False, 0, None
        self.faults = [dict(f) for f in faults]
        self.recording = getattr(self, "recording", None)
        how, message = "done", ""
        # a fresh process: no generator state survives
        random.seed()
        np.random.seed()
        torch.manual_seed(random.getrandbits(40))
        with report.limit(seconds), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), Disk(os.path.join(self.root, "ckpts"), self.seen, self.writing) as self.disk:
            warnings.simplefilter("ignore")
            try:
                trainer = self.trainer = self.build()
                it = int(trainer.state.iteration)
                self.done = it * self.accum
                self.emit("start", it=it, w=self.wsig(trainer), rows=int(trainer.state.rows))
                if self.recording is not None:
                    self.recording["model"] = copy.deepcopy(trainer._unwrap(trainer.model))
                trainer.train_loader = Loader(trainer.train_loader, self)
                trainer._armed = True
                trainer.run()
                self.committed()
            except Kill:
                how = "killed"
            except KeyboardInterrupt:
                how = "interrupted"
            except report.Hang:
                raise
            except BaseException as exc:
                how, message = "error", f"{type(exc).__name__}: {exc}"[:300]
            finally:
                trainer = self.trainer = None
        if self.disk.dead:
            how = "killed"
        self.quiet()
        self.emit("end", how=how, left=len(self.faults), message=message)
        return self.events

    def reference(self):
        """The uninterrupted run without intermediate checkpoints."""
        keep = dict(self.config)
        root = self.root
        self.root = root + "-ref"
        for name in ("save_interval", "temp_save_interval", "state_save_interval"):
            self.config.pop(name, None)
        self.recording = {"m": [], "o": [], "data": [], "rng": [], "weights": []}
        events = self.session()
        if events[-1]["how"] != "done":
            raise RuntimeError(f"reference run failed: {events[-1]['message']}")
        ref = {"m": ["?"] + self.recording["m"], "o": ["?"] + self.recording["o"],
               "w": [events_of(events, "start")[0]["w"]] + [e["w"] for e in events_of(events, "step")],
               "r": ["?"] + [e["r"] for e in events_of(events, "step")],
               "batches": [e["batch"] for e in events_of(events, "micro")],
               "v": {e["it"]: e["w"] for e in events_of(events, "val")}}
        ref["plain"] = self.plain(self.recording)
        due = self.schedule(len(ref["batches"]))
        ref["sched"] = [a == b[0] for a, b in zip(ref["batches"], due)]
        ref["epoch"] = [0] + [epoch for _, epoch in due[self.accum - 1::self.accum]]
        self.recording = None
        shutil.rmtree(self.root, ignore_errors=True)
        self.root, self.config = root, keep
        size, accum = self.config["batch_size"], self.accum
        ref["rows"] = [k * size * accum for k in range(len(ref["m"]))]
        return ref


    def schedule(self, count):
        """The batches the data set itself delivers, one after the other, without a trainer."""
        from torch.utils.data import default_collate
        from utils.training_utils import ResumableSampler
        from . import ds
        size, seed = self.config["batch_size"], self.config.get("random_seed", 42)
        shuffle = not self.config.get("no_shuffle", False)
        dataset = self.fixture.build(ds.context(size, seed=seed), shuffle=shuffle, **{
            k: v for k, v in self.config.get("dataset_args", {}).items() if k not in self.fixture.kwargs})
        out = []
        if hasattr(dataset, "_build_partitioned_stream"):
            planner = dataset._build_partitioned_stream()
            while len(out) < count:
                before = len(out)
                for envelope in dataset:
                    planner.commit_batch(envelope.token)
                    out.append((sessions.data_digest(envelope.data), int(planner.committed_epoch)))
                if len(out) == before:
                    break
        else:
            epoch = 0
            while len(out) < count:
                sampler = ResumableSampler(dataset, shuffle=shuffle, seed=seed)
                for _ in range(epoch):
                    list(sampler)
                    sampler.advance_yield_epoch()
                order = list(sampler)
                for low in range(0, len(order) - size + 1, size):
                    out.append((sessions.data_digest(default_collate([dataset[k] for k in order[low:low + size]])), epoch))
                epoch += 1
        return (out + [(0, -1)] * count)[:count]

    def plain(self, rec):
        """The same steps written out as a plain training loop: does each iteration's outcome agree?"""
        from trainer.loss.supervised import compute_supervised_losses
        from utils.training_utils import build_optimizer
        conf = self.config
        model = rec["model"]
        model.train()
        opt = build_optimizer(conf.get("optim_type", "adamw"), model, conf.get("learning_rate", 1e-3), 1e-2,
                              **conf.get("optim_args", {}))
        kind, args = conf.get("lr_scheduler_type", "constant"), conf.get("lr_scheduler_args", {})
        base = [g["lr"] for g in opt.param_groups]
        total, out = conf["iterations"], [True]
        bound = conf.get("model_args", {}).get("clip")
        for it in range(total):
            if bound:
                with torch.no_grad():
                    model.conv.weight.clamp_(-bound, bound)
            for group, lr in zip(opt.param_groups, base):
                if kind == "step":
                    group["lr"] = lr * args["step_gamma"] ** (it // args["step_size"])
                elif kind == "cosine":
                    low = args["eta_min"]
                    group["lr"] = low + (lr - low) * (1 + np.cos(np.pi * it / total)) / 2
            sums = [torch.zeros_like(p) for p in model.parameters()]
            for k in range(self.accum):
                index = it * self.accum + k
                state = rec["rng"][index]
                random.setstate(state[0])
                np.random.set_state(state[1])
                torch.set_rng_state(state[2])
                noise = draw()
                loss = compute_supervised_losses("KL+KL", rec["data"][index], model(rec["data"][index]))[0] * noise
                for total_grad, grad in zip(sums, torch.autograd.grad(loss, list(model.parameters()))):
                    total_grad += grad / self.accum
            norm = torch.sqrt(sum((g.double() ** 2).sum() for g in sums))
            limit = conf.get("clip_grad_norm")
            for p, grad in zip(model.parameters(), sums):
                if limit is not None and norm > limit:
                    grad = (grad.double() * (limit / norm)).float()
                if conf.get("clip_grad_value"):
                    grad = grad.clamp(-conf["clip_grad_value"], conf["clip_grad_value"])
                p.grad = grad
            opt.step()
            opt.zero_grad()
            mine = model.state_dict()
            out.append(all(torch.allclose(mine[k].double(), v.double(), rtol=2e-4, atol=2e-6)
                           for k, v in rec["weights"][it].items()))
            # follow the trainer's numbers, so that rounding does not build up
            model.load_state_dict(rec["weights"][it])
        return out


def events_of(events, kind):
    return [e for e in events if e["ev"] == kind]
