"""A small model with vector quantisation, on one process or on several ranks."""
import os
import shutil

import torch

from . import distlab


def register():
    """A small model whose codebook is made of the first inputs it sees."""
    import torch.nn as nn
    import torch.nn.functional as F
    from model import MODELS
    from model.vq import VectorQuantize
    if "verif_vq" in MODELS:
        return

    @MODELS.register("verif_vq")
    class Quantised(nn.Module):
        def __init__(self, codes=6, rows=100, second=None, cosine=False, share=False):
            super().__init__()
            self.conv = nn.Conv2d(3, 3, 3, padding=1)
            mult = max(1, rows // codes)
            self.vq = VectorQuantize(codes, 3, use_cosine_sim=cosine, kmeans_sample_multiplier=mult, ema_decay=0.9, threshold_ema_dead_code=0.05)
            if share:
                self.again = self.vq
            if second:
                self.other = VectorQuantize(codes, 3, kmeans_sample_multiplier=max(1, second // codes), ema_decay=0.8)
            self.head = nn.Conv2d(3, 1, 1, bias=False)
            self.value = nn.Linear(3, 3)

        def forward(self, data):
            board = data["board_input"].float()
            side = data["stm_input"].float().reshape(-1, 1, 1, 1)
            x = torch.cat([board, side.expand(-1, 1, *board.shape[2:])], 1)
            x = F.dropout(torch.tanh(self.conv(x)), 0.2, self.training)
            n, c, h, w = x.shape
            flat = x.permute(0, 2, 3, 1).reshape(-1, c)
            flat = self.vq(flat)[0]
            if hasattr(self, "other"):
                flat = self.other(flat)[0]
            x = flat.reshape(n, h, w, c).permute(0, 3, 1, 2)
            return {"value": self.value(x.mean((2, 3))), "policy": self.head(x)[:, 0]}

        @property
        def name(self):
            return "verif_vq"


def damage(folder, kind, pick, place):
    """Damage the newest continuation file of rank `pick`; returns whether there was one."""
    if kind == "none":
        return True
    newest = max((n.split("_")[1] for n in os.listdir(folder) if n.startswith("runtime_")), default=None)
    files = sorted(os.path.join(folder, n) for n in os.listdir(folder) if n.startswith(f"runtime_{newest}_"))
    if len(files) < 2:
        return False
    mine, other = files[pick], files[1 - pick]
    if kind == "gone":
        os.remove(mine)
    elif kind == "flipped":
        data = bytearray(open(mine, "rb").read())
        data[int(place * len(data))] ^= 16
        open(mine, "wb").write(data)
    elif kind == "copied":
        shutil.copyfile(other, mine)
    elif kind == "exchanged":
        a, b = open(mine, "rb").read(), open(other, "rb").read()
        open(mine, "wb").write(b)
        open(other, "wb").write(a)
    return True


def run(job, rank, world):
    """One session of a rank, of a run whose continuation files may first be damaged."""
    register()
    damaged = True
    if "damage" in job:
        if rank == 0:
            damaged = damage(os.path.join(job["rundir"], "ckpts"), job["damage"], job["pick"], job["place"])
        if world > 1:
            torch.distributed.barrier()
    return dict(distlab.run(job, rank, world), damaged=damaged)
