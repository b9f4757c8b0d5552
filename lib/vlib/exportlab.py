"""Drives the real exporter with a model and serializer of our own, recording what the output path holds."""
import contextlib
import io
import json
import os
import resource
import shutil
import sys
import warnings

import torch
import torch.nn as nn

_watch = None


def _hook(event, args):
    if _watch is not None and event in ("open", "os.rename", "os.remove", "os.truncate", "os.link", "os.symlink", "shutil.move",
                                        "shutil.copyfile", "os.mkdir", "os.chmod"):
        _watch.look()


class Watch:
    """The content of one path before every file operation and every chunk the serializer writes."""

    def __init__(self, path):
        self.path, self.seen, self.busy = path, [], False

    def read(self):
        try:
            with open(self.path, "rb") as stream:
                return stream.read()
        except OSError:
            return None

    def look(self):
        if not self.busy:
            self.busy = True
            try:
                now = self.read()
                if not self.seen or self.seen[-1] != now:
                    self.seen.append(now)
            finally:
                self.busy = False

    def __enter__(self):
        global _watch
        self.look()
        _watch = self
        return self

    def __exit__(self, *exc):
        global _watch
        _watch = None
        self.look()


fault_at = None
chunk = 5


def weight(ident, k):
    return (ident * 37 + k * 11) % 251


def register():
    from model import MODELS
    from model.serialization import SERIALIZERS, BaseSerializer

    sys.addaudithook(_hook)

    class Exported(nn.Module):
        def __init__(self, width=24, scale=1, tag="a", arch=0, strict=True):
            super().__init__()
            self.w = nn.Parameter(torch.zeros(width))
            self.scale, self.tag, self.arch = scale, tag, arch

        @property
        def name(self):
            return f"verifexp_{self.tag}"

        def forward(self, data):
            x = data["board_input"].float()
            s = (self.w.sum() * self.scale) / 1000 + data["stm_input"].float()[:, :1]
            value = torch.stack([x.mean((1, 2, 3)), x[:, 0].amax((1, 2)), (x[:, 1].sum((1, 2)) * 0.1)], 1) + s
            return value, (x[:, 0] * 1.5 - x[:, 1] * 0.5 + s[:, :, None]).unsqueeze(1)

    class Jit(Exported):
        def forward(self, data):
            value, policy = super().forward(data)
            return {"value": value, "policy": policy}

    class Serializer(BaseSerializer):
        def __init__(self, text_output=False, headless=False, **kwargs):
            super().__init__(**kwargs)
            self.text_output, self.headless = text_output, headless

        @property
        def is_binary(self):
            return not self.text_output

        @property
        def needs_header(self):
            return super().needs_header and not self.headless

        def arch_hash(self, model):
            return model.arch

        def serialize(self, out, model, device):
            values = [int(v * model.scale) % 256 for v in model.w.cpu().double()]
            for start in range(0, len(values), chunk):
                if fault_at is not None and start >= fault_at:
                    raise OverflowError("planted")
                part = values[start:start + chunk]
                out.write("".join(chr(97 + v % 26) for v in part) if self.text_output else bytes(part))
                if _watch is not None:
                    _watch.look()

    MODELS.register("verif_exp")(Jit)
    MODELS.register("verif_exp_plain")(Jit)       # no serializer
    SERIALIZERS.register("verif_exp")(Serializer)


def run(argv_or_kwargs, output, fault=None, limit=None, cli=False):
    """One export; returns (outcome, snapshots, error)."""
    global fault_at
    import export
    fault_at = fault
    keep = resource.getrlimit(resource.RLIMIT_FSIZE)
    error = ""
    argv = sys.argv
    with Watch(output) as watch, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if cli:
                sys.argv = ["export.py", *argv_or_kwargs]
                args = vars(export.parse_args_and_init())
            else:
                args = argv_or_kwargs
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, keep[1]))
            export.export(**args)
            outcome = "ok"
        except (Exception, SystemExit) as exc:
            outcome, error = "failed", f"{type(exc).__name__}: {exc}"[:300]
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, keep)
            sys.argv = argv
            fault_at = None
    return outcome, watch.seen, error
