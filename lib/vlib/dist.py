"""Groups of real processes (gloo) working through one list of jobs together."""
import os
import pickle
import signal
import socket
import subprocess
import sys
import tempfile
import time


def _port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def _group(check, worker, world, jobs, quiet):
    """Run jobs in one process group; stops early when nothing moves for `quiet` seconds."""
    folder = tempfile.mkdtemp(dir=check.tmp)
    path = os.path.join(folder, "jobs.pkl")
    with open(path, "wb") as out:
        pickle.dump(jobs, out)
    port = _port()
    procs = []
    for rank in range(world):
        env = dict(os.environ, RANK=str(rank), LOCAL_RANK=str(rank), WORLD_SIZE=str(world), LOCAL_WORLD_SIZE=str(world),
                   MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), ACCELERATE_USE_CPU="1", OMP_NUM_THREADS="1",
                   GLOO_SOCKET_IFNAME="lo", PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        if world == 1:
            for name in ("RANK", "LOCAL_RANK", "WORLD_SIZE", "LOCAL_WORLD_SIZE"):
                env.pop(name)
        log = open(os.path.join(folder, f"log{rank}"), "wb")
        procs.append(subprocess.Popen([sys.executable, "-m", worker, path, os.path.join(folder, f"out{rank}"), str(rank)],
                                      env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True))
        log.close()
    seen, moved, hung = -1, time.time(), False

    def done(rank):
        found = []
        try:
            with open(os.path.join(folder, f"out{rank}"), "rb") as stream:
                while True:
                    found.append(pickle.load(stream))
        except (OSError, EOFError, pickle.UnpicklingError):
            pass
        return found
    sizes = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.2)
        now = [os.path.getsize(os.path.join(folder, f"out{r}")) if os.path.exists(os.path.join(folder, f"out{r}")) else 0
               for r in range(world)]
        if now != sizes:
            sizes, moved = now, time.time()
        limit = quiet + (90 if not any(now) else 0)          # importing everything takes its time
        ended = [p for p in procs if p.poll() is not None]
        if time.time() - moved > limit or (ended and any(p.returncode for p in ended) and time.time() - moved > 20):
            hung = True
            break
    for p in procs:
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    results = [done(r) for r in range(world)]
    count = min(len(r) for r in results)
    logs = []
    for rank in range(world):
        with open(os.path.join(folder, f"log{rank}"), "rb") as stream:
            logs.append(stream.read()[-3000:].decode(errors="replace"))
    return results, count, hung, logs


def run(check, world, jobs, *, worker="vlib.distworker", quiet=60):
    """Results per job: one entry per rank, or a string when the group hung or died in that job."""
    out = []
    failures = 0
    while len(out) < len(jobs):
        results, count, hung, logs = _group(check, worker, world, jobs[len(out):], quiet)
        for k in range(count):
            out.append([r[k] for r in results])
        if len(out) < len(jobs):
            if count == 0 and not any(results) and failures > 1:
                raise RuntimeError("no process group could be formed:\n" + logs[0])
            if count == 0 and not any(results):
                failures += 1
                continue
            failures += 1
            out.append("the ranks hung" if hung else "a rank died: " + logs[0][-600:])
            if failures > 4:
                out += ["not run"] * (len(jobs) - len(out))
    return out
