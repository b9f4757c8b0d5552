"""One rank of a group: python -m vlib.distworker JOBS OUT RANK (environment: see dist.py)."""
import contextlib
import importlib
import io
import os
import pickle
import sys
import tempfile
import traceback
import warnings

from vlib import env

jobs_path, out_path, rank = sys.argv[1], sys.argv[2], int(sys.argv[3])
env.activate(tempfile.mkdtemp(dir=os.path.dirname(out_path)))

import torch  # noqa: E402

torch.set_num_threads(1)


def main():
    with open(jobs_path, "rb") as stream:
        jobs = pickle.load(stream)
    world = int(os.environ.get("WORLD_SIZE", "1"))
    if world > 1:
        torch.distributed.init_process_group("gloo")
    with open(out_path, "ab", buffering=0) as out:
        for job in jobs:
            if world > 1:
                torch.distributed.barrier()
            try:
                module = importlib.import_module(job["module"])
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    result = getattr(module, job["run"])(job, rank, world)
            except BaseException as exc:
                result = {"raised": f"{type(exc).__name__}: {exc}"[:800], "trace": traceback.format_exc()[-1500:]}
            out.write(pickle.dumps(result))
    os._exit(0)


main()
