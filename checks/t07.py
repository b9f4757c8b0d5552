"""T07: checkpoints written in the background (AsyncWriter.tla, AsyncTrace.tla, AsyncRuns.tla)."""
import collections
import os
import queue
import re
import threading
import time

import torch

from vlib import device, ds, env, report, tlc, traces, train, trainlab

PID = "T07"
INVARIANTS = ["Frozen", "InOrder", "OneAtATime", "OneBusy", "Complete", "Over", "AllThere", "Once"]
SWITCHES = {"CopyWaits": "Frozen", "ComputeWaits": "Frozen", "WriterWaits": "Frozen", "SubmitJoins": None, "HookLast": None}
SHAPES = [[[1], [1, 2]], [[1, 2]], [[1], [2], [2, 1]]]


def model(check):
    on = {k: True for k in SWITCHES}
    base = dict(Cells=2, Shape=SHAPES[0], Length=5 if check.thorough else 4, Faults=True, Gen=False)
    check.tlc(tlc.run(check.tmp, "AsyncWriter", constants=dict(base, **on), invariants=INVARIANTS, workers=6, timeout=600, heap="6g"), "AsyncWriter")
    if check.thorough:
        check.tlc(tlc.run(check.tmp, "AsyncWriter", spec="Fair", constants=dict(base, Length=3, **on), properties=["Ends"], timeout=600, heap="6g"), "AsyncWriter ends")
        check.tlc(tlc.run(check.tmp, "AsyncWriter", constants=dict(base, Shape=SHAPES[2], **on), invariants=INVARIANTS, workers=6, timeout=900, heap="6g"), "AsyncWriter three files")
    # each wait of the design is needed
    for name in SWITCHES:
        broken = tlc.run(check.tmp, "AsyncWriter", constants=dict(base, Length=4, **dict(on, **{name: False})), invariants=INVARIANTS, timeout=300)
        if broken.ok:
            raise RuntimeError(f"the specification holds without {name}")
        check.note("design_switches_shown_necessary")


def behaviours(check, count):
    """Complete schedules of the specification, drawn by TLC's simulator."""
    out = []
    for number, shape in enumerate(SHAPES):
        for length in (4, 7):
            result = tlc.run(check.tmp, "AsyncWriter", constants=dict(Cells=2, Shape=shape, Length=length, Faults=True, Gen=True, **{k: True for k in SWITCHES}),
                             invariants=INVARIANTS + ["PrintDone"], simulate=count, depth=120, seed=check.seed * 10 + number, workers=1, timeout=300)
            check.tlc(result, "AsyncWriter schedules")
            seen = set()
            for schedule in result.printed:
                key = repr(schedule)
                if key not in seen:
                    seen.add(key)
                    out.append((shape, schedule))
    check.rng.shuffle(out)
    return out


class Injected(OSError):
    pass


class Abrupt(BaseException):
    pass


class Driver:
    """The training thread and the writer's doors, opened as a schedule says."""

    def __init__(self, check, shape, schedule, kind):
        self.rng, self.shape, self.schedule, self.kind = check.rng, shape, schedule, kind
        self.events, self.lock = [], threading.Lock()
        self.arrivals = queue.Queue()
        self.commands, self.answers = queue.Queue(), queue.Queue()
        self.verdicts = {}          # (save, step) -> does it fail
        save, step, taken = 0, collections.Counter(), 0
        for s in schedule:
            if s["a"] == "return" and s["q"] == "submit":
                taken += not s["fail"]
            if s["a"] == "file":
                step[s["c"]] += 1
                if s["fail"]:
                    self.verdicts[(s["c"], step[s["c"]])] = True
        self.hook = self.rng.random() < 0.8
        self.error = self.rng.choice([Injected, RuntimeError, MemoryError, Abrupt])
        self.saves, self.offers = 0, 0
        self.open = False

    def emit(self, ev, **data):
        with self.lock:
            self.events.append(dict(ev=ev, **data))

    # ---- the training thread
    def start(self):
        from utils.async_checkpoint import AsyncCheckpointWriter
        device.reset()
        device.Dev.allowed = None
        self.compute = device.DEFAULT if self.rng.random() < 0.5 else device.Stream()
        self.cells = [device.Dev.make(torch.zeros(3)) for _ in range(2)]
        if self.kind == "mixed":
            self.cells[1] = torch.zeros(3)
        if self.kind == "cpu":
            self.cells = [torch.zeros(3), torch.zeros(3)]
        self.counter = {"steps": 0, "deep": [{"n": 0}]}
        self.writer = AsyncCheckpointWriter(torch.device("cpu") if self.kind == "cpu" else torch.device("cuda", 0))
        self.copy = [s for s in vars(self.writer).values() if isinstance(s, device.Stream)]
        self.thread = threading.Thread(target=self.train, daemon=True)
        device.PATIENCE = self.patience
        self.thread.start()

    def train(self):
        with device.stream(self.compute):
            while True:
                command = self.commands.get()
                if command is None:
                    return
                self.answers.put(command())

    def change(self, cell, value):
        def go():
            if cell == 0:
                self.counter["steps"] = value
                self.counter["deep"][0]["n"] = value
            else:
                self.cells[cell - 1].copy_(torch.full((3,), float(value)))
            self.emit("set", cell=cell, v=value)
        return go

    def payload(self, cells):
        """A nested structure; the same tensor may be in it more than once."""
        tensors = [self.cells[c - 1] for c in cells if c]
        style = self.rng.randrange(4)
        if style == 0:
            body = {"a": list(tensors), "again": tensors[0]}
        elif style == 1:
            body = {"a": tuple(tensors), "again": {"x": [tensors[0].detach()]}}
        elif style == 2:
            body = collections.OrderedDict(a=tensors, again=tensors[-1:])
        else:
            body = {"a": [t.detach() for t in tensors], 3: (tensors[0], None, "text", 1.5)}
        body["count"] = self.counter
        return body

    def content(self, body, cells):
        def flat(x):
            if isinstance(x, torch.Tensor):
                values = device.read(x).tolist()
                return int(values[0]) if len(set(values)) == 1 else -1
            return x
        tensors = list(body["a"])
        out, k = [], 0
        for c in cells:
            if c == 0:
                n = body["count"]
                out.append(n["steps"] if n["deep"][0]["n"] == n["steps"] else -2)
            else:
                out.append(flat(tensors[k]))
                k += 1
        extra = body.get("again", body.get(3))
        while isinstance(extra, (list, tuple, dict)):
            extra = list(extra.values())[0] if isinstance(extra, dict) else extra[0]
        if int(device.read(extra)[0]) not in out:
            return [-3] * len(cells)
        return out

    def door(self, save, step):
        """A file or the pruning begins: wait until the schedule lets it."""
        key = threading.get_ident()
        gate = queue.Queue()
        self.arrivals.put((save, step, gate))
        gate.get(timeout=30)
        return self.verdicts.get((save, step), False)

    def patience(self):
        """The writer waits for the device: that takes as long as the schedule says."""
        if threading.current_thread() not in (self.thread, threading.main_thread()):
            gate = queue.Queue()
            self.arrivals.put((0, 0, gate))
            gate.get(timeout=30)

    def submit(self, files, oom=None):
        number = self.offers + 1
        def finalizer(step, cells):
            def go(staged):
                if self.door(number, step):
                    self.emit("write", save=number, file=step, fail=True, content=[])
                    raise self.error(f"injected in save {number}")
                content = self.content(staged, cells)
                self.emit("write", save=number, file=step, fail=False, content=content)
            return go
        def prune():
            fail = self.door(number, len(files) + 1)
            self.emit("write", save=number, file=len(files) + 1, fail=fail, content=[])
            if fail:
                raise self.error(f"injected in save {number}")
        def go():
            self.emit("call", what="submit", save=number, files=files, hook=self.hook)
            device.Dev.allowed = oom
            payloads = [(self.payload(cells), finalizer(k + 1, cells)) for k, cells in enumerate(files)]
            if self.rng.random() < 0.5:
                payloads = tuple(payloads)
            try:
                self.writer.submit(payloads, post_hook=prune) if self.hook else self.writer.submit(payloads)
                raised = None
            except BaseException as exc:
                raised = exc
            device.Dev.allowed = None
            self.returned(raised)
            return raised is None or f"save {number}" in self.text(raised)
        return go

    @staticmethod
    def text(exc):
        out = []
        while exc is not None:
            out.append(str(exc))
            exc = exc.__cause__ or exc.__context__
        return " ".join(out)

    def returned(self, raised):
        self.emit("return", raised=raised is not None, own=raised is not None and "injected in save" in self.text(raised))

    def flush(self):
        self.emit("call", what="flush", save=0, files=[], hook=False)
        try:
            self.writer.flush()
            raised = None
        except BaseException as exc:
            raised = exc
        self.returned(raised)
        return False

    # ---- the schedule
    def admit(self, wait):
        try:
            save, step, gate = self.arrivals.get(timeout=wait)
        except queue.Empty:
            return False
        gate.put(True)
        return self.admit(wait) if save == 0 else True

    def finish(self, seconds=10):
        """Let everybody through until the call is over."""
        end = time.time() + seconds
        while time.time() < end:
            try:
                return True, self.answers.get(timeout=0.002)
            except queue.Empty:
                self.admit(0.002)
        return False, None

    def play(self):
        self.start()
        calling, value, stuck = False, 0, False
        for s in self.schedule:
            if stuck:
                break
            what = s["a"]
            if what == "set":
                value += 1
                self.commands.put(self.change(s["c"], value))
                self.answers.get(timeout=10)
                if self.rng.random() < 0.6:
                    self.commands.put(self.change(0, value))
                    self.answers.get(timeout=10)
            elif what in ("submit", "flush"):
                if what == "submit":
                    files = [list(cells) + ([0] if self.rng.random() < 0.7 else []) for cells in self.shape]
                    oom = self.rng.randrange(3) if self.kind == "full" and self.rng.random() < 0.5 else None
                    command = self.submit(files, oom)
                else:
                    command = self.flush
                self.commands.put(command)
                calling = what
                time.sleep(0.001)
            elif what == "return":
                done, taken = self.finish()
                stuck = not done
                if calling == "submit" and done and taken:
                    self.offers += 1
                calling = False
            elif what == "device":
                streams = [self.compute] if s["q"] == "compute" else (self.copy or [self.compute])
                for stream in streams:
                    stream.run()
            elif what == "file":
                self.admit(0.05)
        if not stuck:
            self.commands.put(self.flush)
            stuck = not self.finish()[0]
        time.sleep(0.001)
        while self.admit(0.001):
            pass
        self.commands.put(None)
        self.thread.join(2)
        self.emit("over", stuck=stuck)
        return dict(cells=2, sync=self.kind in ("cpu", "env"), events=self.events)


def writers(check):
    count = 300 if check.thorough else 32
    kinds = ["device", "device", "device", "mixed", "mixed", "full", "cpu", "env"]
    cases, raw = [], []
    for number, (shape, schedule) in enumerate(behaviours(check, count)):
        kind = kinds[number % len(kinds)]
        if kind == "env":
            os.environ["NNUE_SYNC_CHECKPOINT"] = "1"
        else:
            os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
        driver = Driver(check, shape, schedule, kind)
        with report.limit(60):
            case = driver.play()
        cases.append(case)
        raw.append(dict(kind=kind, shape=shape, schedule=[f"{s['a']} {s['q']}{s['c'] or ''}{' fails' if s['fail'] else ''}" for s in schedule]))
        check.note(f"schedules_{kind}")
    os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
    check.note("files_written_in_schedules", sum(e["ev"] == "write" for c in cases for e in c["events"]))
    check.note("failures_injected", sum(e["ev"] == "write" and e["fail"] for c in cases for e in c["events"]))
    check.sample(dict(raw[0], events=cases[0]["events"][:10]))

    def on_error(item):
        info, events = raw[item["case"] - 1], cases[item["case"] - 1]["events"]
        check.violation(item["clause"], f"{item['clause']}: {info['kind']} at event {item['step']}", replay=dict(info, events=events[:item["step"]]))
    traces.validate(check, "AsyncTrace", cases, lengths=[len(c["events"]) + 1 for c in cases], label="writer", on_error=on_error)


def mask(name):
    """Without the random parts of a name."""
    return re.sub(r"_rank_(\d+)_\d+_", r"_rank_\1_P_", re.sub(r"[0-9a-f]{32}", "H", name))


def without_names(data):
    if isinstance(data, dict):
        return {k: without_names(v) for k, v in data.items() if k != "vq_runtime"}
    if isinstance(data, (list, tuple)):
        return [without_names(v) for v in data]
    return mask(data) if isinstance(data, str) else data


class Slow(train.Lab):
    """The trainer with a background writer that takes its time; only changes of the directory are recorded."""
    delay, strike_op, crash = 0, None, None
    background = False

    def listing(self):
        return {}

    def seen(self):
        name = self.last.pop(threading.get_ident(), "")
        if name.startswith(("replace", "rename")) and name.endswith(".pt"):
            self.emit("op", what=self.holds(name.split(" ")[1]))

    def holds(self, name):
        try:
            data = torch.load(os.path.join(self.root, "ckpts", name), map_location="cpu", weights_only=False)
        except Exception as exc:
            return f"{name} cannot be read: {type(exc).__name__}"
        return f"{name} {train.digest(without_names(data))}"

    def quiet(self):
        self.emit("progress")

    def writing(self, name, path):
        if self.background and threading.current_thread() is not threading.main_thread():
            self.off_thread += 1
            self.wait()
        if self.disk.dead:
            raise train.Kill("after the crash")
        self.count += 1
        what = None
        if self.strike_op and self.count == self.strike_op[1]:
            what = self.strike_op[0]
        self.last[threading.get_ident()] = f"{name} {os.path.basename(path)}"
        self.emit("op", what=mask(f"{name} {os.path.basename(path)}") + (f" {what}" if what else ""))
        return what

    def wait(self):
        """Until the training thread has come a way on, or stands still."""
        goal, last, since = len(self.events) + self.delay, len(self.events), time.time()
        while len(self.events) < goal:
            if len(self.events) != last:
                last, since = len(self.events), time.time()
            if time.time() - since > 0.03:
                return
            time.sleep(0.001)

    def before_forward(self, data):
        super().before_forward(data)
        if self.crash is not None and self.done == self.crash:
            self.crash = None
            self.disk.dead = True
            raise train.Kill()

    def go(self, background, delay=0, strike=None, crash=None, spoil=None):
        self.background, self.delay, self.strike_op, self.crash = background, delay, strike, crash
        self.count, self.off_thread, self.last = 0, 0, {}
        before = set(threading.enumerate())
        real = os.listdir
        os.listdir = lambda path=".": sorted(real(path), key=lambda n: mask(n) if isinstance(n, str) else n)
        try:
            events = self.session([] if spoil is None else [dict(at="forward", it=spoil, micro=0, kind="nan-loss")], seconds=120)
        finally:
            os.listdir = real
        for thread in set(threading.enumerate()) - before:
            thread.join(0.5)
        over = next(k for k, e in enumerate(events) if e["ev"] == "end")
        return events[over]["how"], [e["what"] for e in events[:over] if e["ev"] == "op"]

    def files(self):
        folder = os.path.join(self.root, "ckpts")
        out = []
        for name in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
            if name.endswith(".pt"):
                out.append(mask(name) if name.startswith("runtime") else self.holds(name))
        return out


def background(cls):
    """Every writer made from now on believes in a device."""
    real = cls.__init__

    def init(self, device_, *args, **kwargs):
        real(self, torch.device("cuda", 0) if Slow.background_on else device_, *args, **kwargs)
    cls.__init__ = init


Slow.background_on = False


def trainers(check):
    import shutil
    from utils.async_checkpoint import AsyncCheckpointWriter
    background(AsyncCheckpointWriter)
    device.PATIENCE = None
    device.reset()
    device.Dev.allowed = None
    rng = check.rng
    src = trainlab.sources(os.path.join(check.tmp, "data"), rng)
    cases, raw, off = [], [], 0
    for index in range(24 if check.thorough else 5):
        conf = trainlab.configs(rng, 1, accums=(rng.choice([1, 2]),))[0]
        name, fixture = src[rng.choice([0, 1, 2, 3, 5])]
        extra = trainlab.options(rng, index + rng.randrange(42), name)
        config = dict(conf.options(), **{k: v for k, v in extra.items() if k != "dataset_args"})
        config["dataset_args"] = dict(fixture.kwargs)
        lab = Slow(os.path.join(check.tmp, f"slow{index}"), fixture, config)

        def run(on, **how):
            nonlocal off
            Slow.background_on = on
            shutil.rmtree(lab.root, ignore_errors=True)
            ended, ops = lab.go(on, **how)
            off += lab.off_thread
            return ended, ops, lab.files()
        info = dict(source=name, **conf.case(), config=config)
        due, whole, final = run(False)
        strikes = [k for k, op in enumerate([o for o in whole if not re.match(r"\w+\.pt ", o)], 1)]
        plans = [dict(delay=d) for d in (0, 3, 50)]
        plans += [dict(delay=rng.choice([0, 2, 50]), strike=("error", k)) for k in rng.sample(strikes, min(len(strikes), 3))]
        plans += [dict(delay=rng.choice([0, 2, 50]), crash=k) for k in rng.sample(range(1, conf.total * conf.accum), 2)]
        plans += [dict(delay=rng.choice([0, 2, 50]), strike=("kill", k)) for k in rng.sample(strikes, min(len(strikes), 2))]
        plans += [dict(delay=rng.choice([2, 50, 50]), spoil=k) for k in rng.sample(range(2, conf.total + 1), 2)]
        for plan in plans:
            wanted = run(False, **plan) if "strike" in plan or "spoil" in plan else (due, whole, final)
            ended, ops, files = run(True, **plan)
            case = dict(how=ended, due=wanted[0], later=ops, atonce=wanted[1], whole=whole, final=files, end=wanted[2])
            if "crash" in plan or ended == "killed":
                # what was cut off mid-change is not a change of the directory
                case["later"] = [o for o in ops if not o.endswith(" kill")]
                case["due"] = "killed"
                newest = lambda fs: sorted(f for f in fs if f"_{conf.total:07d}" in f)
                ended = lab.go(True, delay=plan["delay"])[0]
                case["final"], case["end"] = [ended] + newest(lab.files()), ["done"] + newest(final)
            cases.append(case)
            raw.append(dict(info, plan=plan))
        shutil.rmtree(lab.root, ignore_errors=True)
    check.note("background_runs", len(cases))
    check.note("changes_made_off_the_training_thread", off)
    answers = traces.evaluate(check, "AsyncRuns", cases, label="runs")
    check.evaluations += len(cases)
    for answer, case, info in zip(answers, cases, raw):
        if answer:
            check.violation(answer, f"{answer}: {info['source']} {info['plan']}", replay=dict(info, **case))


def body(check):
    env.activate(check.tmp)
    device.install()
    model(check)
    writers(check)
    trainers(check)


report.main(PID, body)
