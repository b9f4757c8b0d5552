"""One training-loop history over a streaming dataset, recorded for TLC."""
import io
import zlib

import numpy as np

from . import plan


def data_digest(data):
    """Checksum of everything a batch shows (augmentation included)."""
    value = 0
    for key in sorted(data):
        field = data[key]
        array = field.numpy() if hasattr(field, "numpy") else np.asarray(field)
        blob = repr(field).encode() if array.dtype.kind == "O" else np.ascontiguousarray(array).tobytes()
        value = zlib.crc32(key.encode() + repr(array.shape).encode() + blob, value)
    return value & 0x7FFFFFFF


def row_digests(data, count):
    """Checksum of the values each row shows, whatever integer or float width carries them."""
    plain = {}
    for key, field in data.items():
        array = field.numpy() if hasattr(field, "numpy") else np.asarray(field)
        wide = {"i": np.int64, "u": np.int64, "b": np.int64, "f": np.float64}.get(array.dtype.kind)
        plain[key] = array.astype(wide) if wide else array
    return [data_digest({k: v[i] for k, v in plain.items()}) for i in range(count)]


def observe(fixture, envelope):
    seen = plan.observe(fixture, envelope)
    stamp = envelope.data.get("stamp") if isinstance(envelope.data, dict) else None
    token = envelope.token
    seen.update(
        epoch=int(token.epoch), index=int(token.batch_index),
        stamp=[data_digest(envelope.data)] + ([int(v) for v in stamp[0]] if stamp is not None else []),
    )
    return seen


def disk_roundtrip(state):
    import torch
    stream = io.BytesIO()
    torch.save(state, stream)
    stream.seek(0)
    return torch.load(stream, weights_only=True, map_location="cpu")


def canonical(state):
    from dataset.core import canonical_pipeline_state_bytes
    return canonical_pipeline_state_bytes(state)


class Session:
    def __init__(self, fixture, make):
        self.fixture, self.make = fixture, make
        self.events, self.saved, self.rollbacks = [], None, len(fixture.records) % 2
        self.fresh()

    def fresh(self):
        self.dataset = self.make()
        self.planner = self.dataset._build_partitioned_stream()
        self.iterator = None
        self.tokens = []
        self.past = []

    def log(self, op, **extra):
        self.events.append({"op": op, "raised": "", **extra})

    def fetch(self):
        """The trainer's fetch: a finished iterator is replaced by a new one."""
        if self.iterator is None:
            self.iterator = iter(self.dataset)
        try:
            return next(self.iterator)
        except StopIteration:
            self.iterator = iter(self.dataset)
            return next(self.iterator)

    def next(self):
        try:
            envelope = self.fetch()
        except Exception as exc:
            self.events.append({"op": "next", "raised": repr(exc)[:300], "batch": {}})
            return False
        self.tokens.append(envelope.token)
        self.log("next", batch=observe(self.fixture, envelope))
        return True

    def commit(self, count):
        try:
            self.planner.commit_prepared(self.planner.prepare_commit(self.tokens[:count]))
        except Exception as exc:
            self.events.append({"op": "commit", "n": count, "raised": repr(exc)[:300], "epoch": -1})
            return False
        self.past += self.tokens[:count]
        del self.tokens[:count]
        self.log("commit", n=count, epoch=int(self.planner.committed_epoch))
        return True

    def rollback(self):
        try:
            self.rollbacks += 1
            abandoned = self.iterator is not None
            if abandoned:
                self.iterator.close()
                self.iterator = None
            # abandoning an iteration takes its uncommitted batches back by itself
            if not abandoned or self.rollbacks % 2:
                self.planner.rollback_uncommitted()
        except Exception as exc:
            self.events.append({"op": "rollback", "raised": repr(exc)[:300]})
            return False
        self.tokens = []
        self.log("rollback")
        return True

    def save(self):
        try:
            state = self.planner.state_dict()
            canonical(state)
            self.saved = disk_roundtrip(state)
        except Exception as exc:
            self.events.append({"op": "save", "raised": repr(exc)[:300]})
            return False
        self.log("save")
        return True

    def load(self):
        try:
            if self.iterator is not None:
                self.iterator.close()
            self.fresh()
            self.planner.load_state_dict(disk_roundtrip(self.saved))
        except Exception as exc:
            self.events.append({"op": "load", "raised": repr(exc)[:300], "epoch": -1})
            return False
        self.log("load", epoch=int(self.planner.committed_epoch))
        return True

    def refuse(self, rng):
        """Try to commit something that is not the next batches in order."""
        options = []
        if len(self.tokens) >= 2:
            options += [self.tokens[1:], [self.tokens[1], self.tokens[0]], [self.tokens[0]] * 2,
                        [self.tokens[-1]]]
        if len(self.tokens) >= 3:
            options += [[self.tokens[0], self.tokens[2]], self.tokens[::-1]]
        if self.past:
            options += [[self.past[-1]], [self.past[0]], [self.past[-1]] + self.tokens]
        options.append([])
        tokens = rng.choice(options)
        before = canonical(self.planner.state_dict()) if self.planner.capabilities.resumable else b""
        raised = ""
        try:
            self.planner.commit_prepared(self.planner.prepare_commit(tokens))
        except Exception as exc:
            raised = repr(exc)[:200]
        after = canonical(self.planner.state_dict()) if self.planner.capabilities.resumable else b""
        self.events.append({"op": "refuse", "raised": raised, "same": before == after,
                            "what": [f"{t.epoch}/{t.batch_index}" for t in tokens]})
        return raised != ""


def reference(fixture, make, epochs):
    """An uninterrupted run that commits every batch at once."""
    dataset = make()
    planner = dataset._build_partitioned_stream()
    batches = []
    for _ in range(epochs):
        for envelope in dataset:
            batches.append(observe(fixture, envelope))
            if planner.runtime_context.mode == "train":
                planner.commit_batch(envelope.token)
    return batches


def replay(fixture, make, ops, limit, rng=None, misuse=0.0):
    session = Session(fixture, make)
    given = com = 0
    saved = None
    for op in ops:
        if rng is not None and misuse and rng.random() < misuse:
            if not session.refuse(rng):
                break
        if op["op"] == "next":
            if given >= limit:
                continue
            ok = session.next(); given += 1
        elif op["op"] == "commit":
            count = min(op["n"], given - com)
            if not count:
                continue
            ok = session.commit(count); com += count
        elif op["op"] == "rollback":
            ok = session.rollback(); given = com
        elif op["op"] == "save":
            ok = session.save(); saved = com
        else:
            if saved is None:
                continue
            ok = session.load(); given = com = saved
        if not ok:
            break
    # what comes next is what an uninterrupted run delivers
    for _ in range(3):
        if given < limit and session.events and session.events[-1]["raised"] == "":
            session.next(); given += 1
    if session.iterator is not None:
        session.iterator.close()
    return session.events
