"""T06: resumable sampling of map-style data (Sampler.tla, PlanTransaction.tla)."""
import json

from vlib import env, report, session, tlc, traces

PID = "T06"
CLAUSES = ["InPlace", "NeverStuck", "Ordered", "PrefixAccepted", "OthersRefused"]


def model(check):
    grid = [(5, 2, False, 0, 2), (4, 2, False, 1, 2), (5, 2, True, 1, 2), (3, 3, False, 2, 3)]
    if check.thorough:
        grid += [(7, 2, True, 2, 3), (9, 3, False, 0, 3), (8, 3, False, 3, 3), (2, 1, True, 1, 4)]
    for size, batch, keep, ahead, epochs in grid:
        result = tlc.run(check.tmp, "Sampler",
                         constants=dict(L=size, B=batch, Keep=keep, Ahead=ahead, Epochs=epochs, MaxOps=0, Gen=False),
                         invariants=CLAUSES, properties=["Refines"], workers=4, timeout=600)
        check.tlc(result, f"Sampler {size} {batch} {keep} {ahead}")


def schedules(check):
    found = set()
    for size, batch, keep, ahead in [(5, 2, False, 1), (3, 2, True, 0)]:
        result = tlc.run(check.tmp, "Sampler",
                         constants=dict(L=size, B=batch, Keep=keep, Ahead=ahead, Epochs=4,
                                        MaxOps=7 if check.thorough else 6, Gen=True),
                         invariants=["PrintDone"], workers=4, timeout=600, heap="4g")
        check.tlc(result, f"Sampler schedules {size}")
        found |= {json.dumps(h) for h in result.printed}
    check.note("tlc_schedules", len(found))
    return [json.loads(h) for h in sorted(found)]


def random_ops(rng, length):
    return [{"op": rng.choices(["next", "commit", "rollback", "save", "load"], [8, 5, 1.2, 1.2, 0.9])[0],
             "n": rng.choice([1, 1, 2, 3, 9])} for _ in range(length)]


class Rows:
    """A map-style data set of bare indices which notes the epoch it is read in."""

    def __init__(self, length):
        self.length, self._active_epoch = length, 0

    def __len__(self):
        return self.length

    def __getitem__(self, index):
        return index, self._active_epoch


class Wrapped:
    """A data set around another one, as transforming wrappers are."""

    def __init__(self, dataset):
        self.dataset = dataset

    def __len__(self):
        return len(self.dataset)

    def __getitem__(self, index):
        return self.dataset[index]


class Driver:
    """The training loop's use of the sampler: loader, read-ahead, staging and commits."""

    def __init__(self, conf):
        self.conf = conf
        self.events, self.saved = [], None
        self.fresh()

    def fresh(self):
        from utils.training_utils import ResumableSampler
        c = self.conf
        self.data = Rows(c["length"])
        for _ in range(c["wraps"]):
            self.data = Wrapped(self.data)
        self.sampler = ResumableSampler(self.data, shuffle=c["shuffle"], seed=c["seed"], rank=c["rank"], world_size=c["world"])
        self.iterator, self.tokens, self.past = None, [], []

    def iterate(self):
        from utils.training_utils import build_data_loader
        c = self.conf
        loader = build_data_loader(self.data, c["batch"], shuffle=False, num_workers=0, drop_last=not c["keep"],
                                   sampler=self.sampler, pin_memory=False)
        queue = []
        for batch in loader:
            queue.append(batch)
            if len(queue) > c["ahead"]:
                yield queue.pop(0)
        yield from queue

    def next(self):
        try:
            if self.iterator is None:
                self.iterator = self.iterate()
            try:
                rows, epochs = next(self.iterator)
            except StopIteration:
                self.sampler.advance_yield_epoch()
                self.iterator = self.iterate()
                rows, epochs = next(self.iterator)
            token = self.sampler.stage_batch(self.conf["batch"])
        except Exception as exc:
            self.events.append({"op": "next", "raised": repr(exc)[:300], "batch": {}})
            return False
        self.tokens.append(token)
        size, batch = self.conf["length"] // self.conf["world"], self.conf["batch"]
        per = -(-size // batch) if self.conf["keep"] else size // batch
        index = (token.after_offset - 1) // batch
        self.events.append({"op": "next", "raised": "", "batch": {
            "rows": rows.tolist(), "real": [True] * len(rows), "stamp": epochs.tolist(), "epoch": token.after_epoch,
            "index": index, "last": index == per - 1}})
        return True

    def commit(self, count):
        try:
            self.sampler.commit_prepared(self.sampler.prepare_commit(self.tokens[:count]))
        except Exception as exc:
            self.events.append({"op": "commit", "n": count, "raised": repr(exc)[:300], "epoch": -1})
            return False
        self.past += self.tokens[:count]
        del self.tokens[:count]
        self.events.append({"op": "commit", "n": count, "raised": "", "epoch": int(self.sampler.epoch)})
        return True

    def rollback(self):
        self.sampler.rollback_uncommitted()
        self.iterator, self.tokens = None, []
        self.events.append({"op": "rollback", "raised": ""})

    def save(self):
        self.saved = session.disk_roundtrip(self.sampler.state_dict())
        self.events.append({"op": "save", "raised": ""})

    def load(self):
        self.fresh()
        try:
            self.sampler.load_state_dict(session.disk_roundtrip(self.saved))
        except Exception as exc:
            self.events.append({"op": "load", "raised": repr(exc)[:300], "epoch": -1})
            return False
        self.events.append({"op": "load", "raised": "", "epoch": int(self.sampler.epoch)})
        return True

    def refuse(self, rng):
        options = [[]]
        t = self.tokens
        if len(t) >= 2:
            options += [t[1:], [t[1], t[0]], [t[0]] * 2, [t[-1]]]
        if len(t) >= 3:
            options += [[t[0], t[2]], t[::-1]]
        if self.past:
            options += [[self.past[-1]], [self.past[0]], [self.past[-1]] + t]
        tokens = rng.choice(options)
        before, raised = self.sampler.state_dict(), ""
        try:
            self.sampler.commit_prepared(self.sampler.prepare_commit(tokens))
        except Exception as exc:
            raised = repr(exc)[:200]
        self.events.append({"op": "refuse", "raised": raised, "same": self.sampler.state_dict() == before,
                            "what": [str(x) for x in tokens]})
        return raised != ""


def replay(conf, ops, limit, rng):
    driver = Driver(conf)
    given = com = 0
    saved = None
    ok = True
    for op in ops + [{"op": "next"}] * 3:
        if rng.random() < 0.15 and not driver.refuse(rng):
            break
        if op["op"] == "next":
            if given < limit:
                ok = driver.next()
                given += 1
        elif op["op"] == "commit":
            count = min(op["n"], given - com)
            if count:
                ok = driver.commit(count)
                com += count
        elif op["op"] == "rollback":
            driver.rollback()
            given = com
        elif op["op"] == "save":
            driver.save()
            saved = com
        elif saved is not None:
            ok = driver.load()
            given = com = saved
        if not ok:
            break
    return driver.events


def reference(conf, count):
    driver = Driver(dict(conf, ahead=0))
    for _ in range(count):
        if not driver.next() or not driver.commit(1):
            raise RuntimeError(driver.events[-1]["raised"])
    return [e["batch"] for e in driver.events if e["op"] == "next"]


def foreign(conf, rng):
    """Positions of another configuration, and positions outside the data."""
    driver = Driver(conf)
    driver.next()
    driver.commit(1)
    state = driver.sampler.state_dict()
    local = conf["length"] // conf["world"]
    events = []

    def attempt(what, other, given):
        raised = ""
        try:
            Driver(other).sampler.load_state_dict(given)
        except Exception as exc:
            raised = repr(exc)[:200]
        events.append({"op": "foreign", "raised": raised, "what": what})

    attempt("length", dict(conf, length=conf["length"] + 1), state)
    attempt("seed", dict(conf, seed=conf["seed"] + 1), state)
    attempt("shuffle", dict(conf, shuffle=not conf["shuffle"]), state)
    attempt("world", dict(conf, world=conf["world"] + 1), state)
    if conf["world"] > 1:
        attempt("rank", dict(conf, rank=(conf["rank"] + 1) % conf["world"]), state)
        attempt("single-process state", conf, dict(version=1, length=conf["length"], shuffle=conf["shuffle"],
                                                   seed=conf["seed"], epoch=0, offset=1))
    else:
        for name, value in (("length", conf["length"] + 1), ("seed", conf["seed"] + 1), ("shuffle", not conf["shuffle"])):
            attempt("old state " + name, conf, dict(dict(version=1, length=conf["length"], shuffle=conf["shuffle"],
                                                         seed=conf["seed"], epoch=0, offset=1), **{name: value}))
        attempt("old state offset", conf, dict(version=1, length=conf["length"], shuffle=conf["shuffle"],
                                               seed=conf["seed"], epoch=0, offset=local + 1))
    attempt("offset", conf, dict(state, offset=local + 1))
    attempt("offset", conf, dict(state, offset=-1))
    return events


def legacy(conf, done):
    """A position saved by an older version continues the same order."""
    driver = Driver(conf)
    ref = reference(conf, done + 2)
    epoch, index = ref[done]["epoch"], ref[done]["index"]
    driver.sampler.load_state_dict(dict(version=1, length=conf["length"], shuffle=conf["shuffle"], seed=conf["seed"],
                                        epoch=epoch, offset=index * conf["batch"]))
    driver.next()
    driver.next()
    return ref[done:], driver.events


def orders(rng):
    from utils.training_utils import ResumableSampler
    length = rng.choice([1, 2, 5, 9, 10, 17, 33, 100])
    world = rng.choice([1, 2, 3, 4])
    shuffle = rng.random() < 0.7
    seed = rng.choice([0, 1, 42, 10**9, rng.randrange(10**6)])
    epochs = 3
    if length < world:
        world = 1

    def run(seed, rank, world):
        sampler = ResumableSampler(Rows(length), shuffle=shuffle, seed=seed, rank=rank, world_size=world)
        out, lens = [], []
        for _ in range(epochs):
            lens.append(len(sampler))
            out.append([int(i) for i in sampler])
            sampler.advance_yield_epoch()
        return out, lens
    ranks = [run(seed, r, world) for r in range(world)]
    return dict(length=length, world=world, shuffle=shuffle, ranks=[r[0] for r in ranks], lens=[r[1] for r in ranks],
                alone=run(seed, 0, 1)[0], other=run(seed + 1, 0, 1)[0], seed=seed)


def body(check):
    model(check)
    env.activate(check.tmp)
    rng = check.rng
    plans = schedules(check)
    rng.shuffle(plans)

    cases = []
    for _ in range(400 if check.thorough else 80):
        cases.append(orders(rng))

    def on_order(item):
        case = cases[item["case"] - 1]
        check.violation(item["clause"], f"{item['clause']}: length {case['length']} world {case['world']} epoch {item['step'] - 1}",
                        case)
    traces.validate(check, "SamplerTrace", cases, lengths=[len(c["alone"]) + 1 for c in cases], label="orders", on_error=on_order)

    cases, lengths, raw = [], [], []
    cursor = 0

    def add(ref, events, info):
        cases.append({"ref": ref, "events": events})
        lengths.append(len(events) + 1)
        raw.append(dict(info, events=events))

    for index in range(200 if check.thorough else 50):
        world = rng.choice([1, 1, 2, 3])
        batch = rng.choice([1, 2, 3, 4])
        local = rng.randint(batch, batch * 4)
        conf = dict(length=local * world + rng.randrange(world), world=world, rank=rng.randrange(world), batch=batch,
                    shuffle=rng.random() < 0.7, seed=rng.randrange(1000), keep=rng.random() < 0.3, ahead=rng.choice([0, 1, 2]), wraps=rng.choice([0, 0, 1, 2]))
        limit = 14
        try:
            ref = reference(conf, limit + 1)
        except Exception as exc:
            check.violation("an uninterrupted run failed", repr(exc), conf)
            continue
        for k in range(12):
            if k % 3 == 2:
                ops = random_ops(rng, rng.choice([12, 25, 40]))
            else:
                ops, cursor = plans[cursor % len(plans)], cursor + 1
            add(ref, replay(conf, list(ops), limit, rng), dict(conf, ops=[f"{o['op']}{o['n'] or ''}" for o in ops]))
        add(ref, foreign(conf, rng), dict(conf, ops=["foreign"]))
        if world == 1:
            part, events = legacy(conf, rng.randint(1, 8))
            add(part, events, dict(conf, ops=["legacy"]))

    def on_error(item):
        entry = raw[item["case"] - 1]
        event = entry["events"][item["step"] - 1]
        check.violation(item["clause"], json.dumps(event)[:600], {**entry, "step": item["step"]})
    traces.validate(check, "PlanTransactionTrace", cases, lengths=lengths, label="histories", on_error=on_error,
                    constants=dict(Total=0))
    check.sample({k: v for k, v in raw[0].items() if k != "events"})


report.main(PID, body)
