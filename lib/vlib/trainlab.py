"""Schedules of Trainer.tla replayed on the real trainer and judged by TrainerTrace.tla."""
import concurrent.futures
import copy
import json
import os
import random
import shutil

from . import ds, report, tlc, traces, train

INVARIANTS = ["AppliedInOrder", "CommittedPosition", "FilesExact", "NewestLoadable", "StatesLoadable", "NeverBack",
              "PermanentKept", "Bounded", "TempBounded", "NoBadFile", "NoBadValidation", "NoBadEnd", "DoneIsAll"]
SPOILS = ["nan-loss", "inf-metric", "inf-aux", "nan-grad"]

class Config:
    """Constants of the specification plus what varies on the implementation's side."""

    def __init__(self, total, accum, save, temp, state, val, keep):
        self.total, self.accum, self.save, self.temp = total, accum, save, temp
        self.state, self.val, self.keep = state, val, keep

    @property
    def constants(self):
        return dict(Total=self.total, Accum=self.accum, SaveEvery=self.save, TempEvery=self.temp,
                    StateEvery=self.state, ValEvery=self.val, Keep=self.keep)

    def options(self):
        return dict(iterations=self.total, gradient_accumulation_steps=self.accum, save_interval=self.save,
                    temp_save_interval=self.temp, state_save_interval=self.state or None,
                    val_interval=self.val or 10**6, num_keep_states=self.keep)

    def case(self):
        return dict(total=self.total, accum=self.accum, save=self.save, temp=self.temp, state=self.state,
                    val=self.val, keep=self.keep)


def configs(rng, count, accums=(1, 2), small=True):
    out = []
    for index in range(count):
        total = rng.choice([3, 4] if small else [4, 5])
        accum = accums[index % len(accums)]
        save = rng.choice([1, 2, 3, total + 4])
        temp = rng.choice([1, 2, 3, total + 4])
        state = rng.choice([0, 0, 2, 3])
        out.append(Config(total, accum, save, temp, state, rng.choice([0, 1, 2]), rng.choice([-1, 1, 1, 2, 0])))
    return out


def schedules(check, confs, faults=2, gen=True, timeout=600):
    """The exhaustive fault schedules of each configuration; every run also checks the invariants."""
    def one(item):
        index, conf = item
        folder = os.path.join(check.tmp, f"spec{index}")
        os.makedirs(folder, exist_ok=True)
        return tlc.run(folder, "Trainer", constants=dict(conf.constants, MaxSessions=faults, DrainBeforeRescue=True, Gen=gen),
                       invariants=INVARIANTS + (["PrintDone"] if gen else []), workers=2, timeout=timeout, heap="3g")
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        results = list(pool.map(one, enumerate(confs)))
    found = []
    for conf, result in zip(confs, results):
        check.tlc(result, f"Trainer {conf.case()}")
        found.append([json.loads(x) for x in sorted({json.dumps(h, sort_keys=True) for h in result.printed})])
    return found


def breaks(check, conf, constants):
    """The invariant a changed design violates, if any."""
    result = tlc.run(check.tmp, "Trainer", constants=dict(conf.constants, MaxSessions=2, Gen=False, **constants),
                     invariants=INVARIANTS, workers=2, timeout=300, heap="3g")
    return None if result.ok else result.violated


def concrete(rng, schedule):
    """Faults per session of one abstract schedule."""
    sessions = {}
    for f in schedule:
        g = dict(at=f["at"], it=f["it"], micro=f["micro"], kind=f["kind"])
        if f["kind"] == "spoil":
            g["kind"] = rng.choice(SPOILS)
        if f["at"] == "write":
            low = {"model": 0, "state": 2, "prune": 5}[f["phase"]]
            g["op"] = low + rng.randrange(5)
            if g["kind"] == "kill" and rng.random() < 0.3:
                g["kind"] = "torn"
        if f["at"] == "optim" and rng.random() < 0.5:
            g["at"] = "optimized"
        if f["at"] == "forward" and f["kind"] != "spoil" and rng.random() < 0.4:
            g["at"] = "before"
        sessions.setdefault(f["session"], []).append(g)
    return [sessions.get(k, []) for k in range(1, max(sessions, default=0) + 1)]


def run(lab, plan):
    """All sessions of a plan, then sessions without faults until the run is done."""
    shutil.rmtree(lab.root, ignore_errors=True)
    events, used = [], []
    for faults in list(plan) + [[], []]:
        used.append(faults)
        events += lab.session(faults)
        if events[-1]["how"] == "done":
            break
    shutil.rmtree(lab.root, ignore_errors=True)
    return events


def case_of(lab, conf, events):
    ref = {k: lab.ref[k] for k in ("batches", "w", "r", "rows", "epoch", "plain", "sched")}
    return dict(conf.case(), val=conf.val if lab.val is not None else 0, ref=ref, events=events)


def sources(root, rng):
    """Training data of every kind whose position can be restored; map-style ones first."""
    join = os.path.join
    npz = ds.npz_fixture
    out = []
    n = lambda: rng.randint(5, 12)
    out.append(("map", npz(join(root, "map"), rng, "processed_katago_numpy", [(5, n()), (5, n())])))
    out.append(("stream", npz(join(root, "it"), rng, "iterative_processed_katago_numpy", [(5, n()), (5, n()), (5, n())])))
    out.append(("katago-map", npz(join(root, "km"), rng, "katago_numpy", [(6, n()), (6, n())])))
    out.append(("katago", npz(join(root, "k"), rng, "iterative_katago_numpy", [(6, n()), (6, n())])))
    out.append(("batched", npz(join(root, "b"), rng, "batched_processed_katago_numpy", [(5, n()), (5, n())])))
    out.append(("sparse", npz(join(root, "s"), rng, "iterative_sparse_numpy", [(5, n()), (5, n())], drop_extra=True)))
    out.append(("simple", ds.binary_fixture(join(root, "sb"), rng, "simple_binary", [(5, n()), (5, n())])))
    out.append(("packed", ds.binary_fixture(join(root, "pb"), rng, "packed_binary", [(6, 4), (6, 3)])))
    for name, fixture in out:
        fixture.name = name
    return out


OPTIMIZERS = [("adamw", {}), ("sgd-momentum", {}), ("adamw-ams", {}), ("sgd-nesterov", {}), ("muon-adamw", {}), ("sgd", {})]
SCHEDULERS = [("constant", {}), ("step", {"step_size": 2, "step_gamma": 0.5}), ("cosine", {"eta_min": 1e-4})]

CLIPS = [(None, None), (9.0, 0.01), (0.05, None), (None, 0.01), (1.0, None), (1.0, 0.02), (0.05, 0.01)]


def options(rng, index, source):
    """Implementation-side variation that the specification is indifferent to."""
    opt, oargs = OPTIMIZERS[index % len(OPTIMIZERS)]
    sched, sargs = SCHEDULERS[rng.randrange(len(SCHEDULERS))]
    out = dict(batch_size=rng.choice([2, 3, 4]), random_seed=rng.randrange(1000), optim_type=opt, optim_args=dict(oargs),
               learning_rate=rng.choice([0.01, 0.003]), lr_scheduler_type=sched, lr_scheduler_args=dict(sargs),
               log_interval=rng.choice([1, 2, 10**6]), show_interval=rng.choice([1, 3, 10**6]))
    norm, value = CLIPS[index % len(CLIPS)]
    if norm and value and opt.startswith("adamw"):
        # Adam hides the scale of a gradient
        out["optim_type"], out["optim_args"] = "sgd-momentum", {}
    if norm:
        out["clip_grad_norm"] = norm
    if value:
        out["clip_grad_value"] = value
    args = {}
    if rng.random() < 0.5:
        args["clip"] = 0.05
    out["model_args"] = args
    out["no_shuffle"] = rng.random() < 0.2
    if source == "batched" and rng.random() < 0.7:
        out["dataset_args"] = dict(prefetch_threads=rng.choice([1, 2]), prefetch_batches=rng.choice([1, 3]))
    return out


def labs(check, confs, picks, root, validate=True, make=train.Lab, adjust=None):
    """One lab per configuration, with its uninterrupted run."""
    rng = check.rng
    src = sources(os.path.join(root, "data"), rng)
    val = ds.npz_fixture(os.path.join(root, "val"), rng, "iterative_processed_katago_numpy", [(5, 7)])
    out = []
    base = rng.randrange(42)
    for index, conf in enumerate(confs):
        name, fixture = src[picks[index % len(picks)]]
        extra = options(rng, index + base, name)
        config = dict(conf.options(), **{k: v for k, v in extra.items() if k != "dataset_args"})
        dataset_args = dict(fixture.kwargs, **extra.get("dataset_args", {}))
        if rng.random() < 0.5 and name not in ("sparse",):
            dataset_args["apply_symmetry"] = True
        config["dataset_args"] = dataset_args
        if adjust:
            adjust(config, conf, name)
        lab = make(os.path.join(root, f"run{index}"), fixture, config, val=val if conf.val and validate else None)
        lab.name = name
        lab.ref = lab.reference()
        out.append(lab)
    return out


def campaign(check, pid, confs, found, labs_, select, per, label="runs"):
    """Replay a selection of schedules on every lab and judge all of it at once."""
    rng = check.rng
    cases, lengths, raw = [], [], []
    fired = 0
    for conf, lab, plans in zip(confs, labs_, found):
        chosen = select(rng, plans, per)
        for schedule in chosen:
            plan = concrete(rng, schedule)
            info = dict(source=lab.name, **conf.case(), config=lab.config, plan=copy.deepcopy(plan))
            try:
                events = run(lab, plan)
            except report.Hang:
                check.violation("training hung", "a session did not end", replay=info, key=f"hang {lab.name}")
                continue
            fired += sum(e["ev"] == "fault" for e in events)
            cases.append(case_of(lab, conf, events))
            lengths.append(len(events) + 1)
            raw.append((info, events))
    check.note("sessions_recorded", sum(e["ev"] == "end" for _, ev in raw for e in ev))
    check.note("faults_struck", fired)
    check.sample({"plan": raw[0][0]["plan"], "events": raw[0][1][:12]})

    def on_error(item):
        info, events = raw[item["case"] - 1]
        clause = item["clause"]
        event = events[item["step"] - 1]
        message = ""
        if event["ev"] == "end":
            message = event.get("message", "")
        check.violation(clause, f"{clause}: {lab_text(info)} at event {item['step']} {event['ev']} {message}",
                        replay=dict(info, events=events[:item["step"]]), key=f"{clause} {info['source']}")

    traces.validate(check, "TrainerTrace", cases, lengths=lengths, label=label, on_error=on_error, timeout=900)
    return raw


def lab_text(info):
    return f"{info['source']} accum={info['accum']} keep={info['keep']} plan={json.dumps(info['plan'])}"


def spread(phases=None, kinds=None):
    """Choose schedules so that every fault phase and kind is met."""
    def select(rng, plans, per):
        rng.shuffle(plans)
        pool = [p for p in plans if (phases is None or any(f["phase"] in phases for f in p))
                and (kinds is None or any(f["kind"] in kinds for f in p))]
        chosen, met = [], set()
        for p in pool:
            marks = {(f["phase"], f["kind"], f["it"]) for f in p}
            if marks - met:
                chosen.append(p)
                met |= marks
            if len(chosen) >= per:
                return chosen
        for p in pool:
            if len(chosen) >= per:
                break
            if p not in chosen:
                chosen.append(p)
        return chosen
    return select
