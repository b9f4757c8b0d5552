"""Driving planner-backed datasets and in-memory record sources."""
import numpy as np

from . import ds as dsl


def set_chunk(size):
    """Records the planner reads per source call (an internal batching size).

    Small values put cursors in the middle of small fixtures.  Nothing a user
    sees may depend on it; when the constant is gone this has no effect.
    """
    import dataset.planner as module
    if hasattr(module, "SOURCE_CHUNK_SIZE"):
        module.SOURCE_CHUNK_SIZE = size


# ------------------------------------------------------------ observation
def shape_codes(fixture):
    codes = {}
    for record in fixture.records:
        size = fixture.fixed_size or record.hw
        codes[record.id] = int(size[0]) * 1000 + int(size[1])
    return [codes[i] for i in range(1, len(fixture.records) + 1)]


def observe(fixture, envelope):
    data = envelope.data
    return {
        "rows": fixture.identify_batch(data),
        "real": [bool(v) for v in np.asarray(envelope.is_real)],
        "last": bool(envelope.token.batch.is_last if hasattr(envelope.token, "batch") else envelope.token.is_last),
    }


def run_epochs(fixture, dataset, epochs, commit=True, limit=10_000):
    """Iterate whole epochs the way a training loop does; returns per-epoch batches."""
    result = []
    dataset._build_partitioned_stream()
    planner = dataset._partitioned_stream
    train = planner.runtime_context.mode == "train"
    for _ in range(epochs):
        batches = []
        for envelope in dataset:
            batches.append(observe(fixture, envelope))
            if train and commit:
                planner.commit_batch(envelope.token)
            if len(batches) > limit:
                raise RuntimeError("epoch does not end")
        result.append(batches)
    return result


def arrivals(fixture, ctx, kwargs, epochs, cycles=1, limit=100_000):
    """Record ids in source order, straight from the record source (per epoch)."""
    dataset = fixture.build(ctx, **kwargs)
    planner = dataset._build_partitioned_stream()
    source = dataset._record_source
    result = []
    for epoch in range(epochs):
        per_cycle = []
        for cycle in range(cycles):
            cursor = (source.start_epoch(epoch, ctx.rank) if cycle == 0
                      else source.start_cycle(epoch, cycle, ctx.rank))
            ids = []
            while True:
                envelope, cursor = source.next_envelope(cursor)
                if envelope is None:
                    break
                ids += fixture.identify_batch(fixture.finalize(dataset, source.materialize_batch([envelope])))
                if len(ids) > limit:
                    raise RuntimeError("source does not end")
            if hasattr(source, "close_cursor"):
                source.close_cursor(cursor)
            per_cycle.append(ids)
        result.append(per_cycle)
    planner.close()
    return result


# ------------------------------------------------------------ in-memory sources
class MemFixture:
    """A record source the harness owns: records are (id, shape) pairs."""

    def __init__(self, shapes, *, chunked=False, zero=False, sizes=None, declare=True, resumable=True,
                 order=None, payload=False, exact=True, shards=None, repeat_cycles=True, thread_safe=True):
        self.shapes, self.chunked, self.zero = list(shapes), chunked, zero
        self.sizes = sizes or [0] * len(shapes)
        self.declare, self.resumable, self.payload = declare, resumable, payload
        self.exact, self.shards = exact, shards
        self.order = order or (lambda epoch, cycle, ids: ids)
        self.thread_safe = thread_safe
        self.name = "mem"
        self.records = list(range(1, len(shapes) + 1))
        self.fixed_size = None
        self.kwargs = {}

    def shape_codes(self):
        return list(self.shapes)

    def identify_batch(self, data):
        return [int(v) for v in np.asarray(data["id"])]

    def finalize(self, dataset, data):
        return data

    def source(self):
        from dataset.source import RecordEnvelope, SourceCapabilities
        fixture = self

        class Source:
            capabilities = SourceCapabilities("sequential", False, fixture.exact, fixture.resumable, True)
            thread_safe_materialization = fixture.thread_safe
            zero_resident_envelopes = fixture.zero

            def __init__(self):
                codes = sorted(set(fixture.shapes))
                if fixture.declare:
                    self.shape_codes = {(c, c): c for c in codes}
                self.world = 1
                self.rank = 0

            def configure_distributed(self, world, rank, *, rank_sharded):
                self.world, self.rank = (world, rank) if rank_sharded else (1, 0)

            def manifest_state(self):
                return {"shapes": fixture.shapes, "kind": "mem"}

            def _ids(self, epoch, cycle):
                ids = list(range(1, len(fixture.shapes) + 1))
                if fixture.shards is not None and self.world > 1:
                    ids = list(fixture.shards[self.rank])
                return fixture.order(epoch, cycle, ids)

            def start_epoch(self, epoch, rank):
                return self.start_cycle(epoch, 0, rank)

            def start_cycle(self, epoch, cycle, rank):
                return (epoch, cycle, 0)

            def _envelope(self, cursor):
                epoch, cycle, pos = cursor
                ids = self._ids(epoch, cycle)
                if pos >= len(ids):
                    return None
                i = ids[pos]
                payload = ("blob", bytes([i % 256, pos % 256])) if fixture.payload else i
                return RecordEnvelope(0, ("mem", i, (cycle,)), fixture.shapes[i - 1],
                                      (i, payload) if fixture.payload else i, fixture.sizes[i - 1])

            def next_envelope(self, cursor):
                envelope = self._envelope(cursor)
                if envelope is None:
                    return None, cursor
                return envelope, (cursor[0], cursor[1], cursor[2] + 1)

            def materialize_batch(self, envelopes):
                ids = []
                for e in envelopes:
                    i = e.payload[0] if fixture.payload else e.payload
                    if fixture.payload and e.payload[1][0] != "blob":
                        raise RuntimeError("payload was not restored")
                    ids.append(i)
                return {"id": np.asarray(ids, dtype=np.int64)}

            def save_cursor(self, cursor):
                return {"cursor": list(cursor)}

            def restore_cursor(self, state):
                return tuple(state["cursor"])

        if fixture.chunked:
            def next_envelopes(self, cursor, limit):
                out = []
                take = min(limit, 3 + cursor[2] % 4)
                while len(out) < take:
                    envelope, cursor = self.next_envelope(cursor)
                    if envelope is None:
                        break
                    out.append(envelope)
                return tuple(out), cursor
            Source.next_envelopes = next_envelopes
        if fixture.payload:
            def save_payload(payload):
                return {"i": payload[0], "hex": payload[1][1].hex()}

            def restore_payload(self, state):
                return (state["i"], ("blob", bytes.fromhex(state["hex"])))
            Source.save_payload = staticmethod(save_payload)
            Source.restore_payload = restore_payload
        return Source()

    def build(self, ctx, *, shuffle=False, shuffle_window_size=32768, shuffle_buffer_bytes=None,
              steps_per_epoch=None, max_shape_queues=64, composer=None, prefetch_workers=0,
              prefetch_batches=8):
        from dataset.planner import DatasetPlanner, PlannerConfig
        from dataset.source_dataset import SourceBatchDataset
        source = self.source()

        class Built:
            def __init__(self):
                self._record_source = source
                self._partitioned_stream = None

            def _build_partitioned_stream(self):
                if self._partitioned_stream is None:
                    self._partitioned_stream = DatasetPlanner(
                        source, ctx,
                        PlannerConfig(shuffle, shuffle_window_size, shuffle_buffer_bytes,
                                      max_shape_queues, steps_per_epoch),
                        pipeline_composer=composer)
                    self._planned_decoder = SourceBatchDataset(
                        self._partitioned_stream, source, prefetch_workers=prefetch_workers,
                        prefetch_batches=prefetch_batches)
                return self._partitioned_stream

            def __iter__(self):
                self._build_partitioned_stream()
                yield from self._planned_decoder

        return Built()


def shape_list(fixture):
    return fixture.shape_codes() if isinstance(fixture, MemFixture) else shape_codes(fixture)


def to_plain(fixture):
    """Real fixtures expose the same helper surface."""
    return fixture


if not hasattr(dsl.Fixture, "finalize"):
    def _finalize(self, dataset, data):
        decoder = getattr(dataset, "_planned_decoder", None)
        finalize = getattr(decoder, "finalize_batch", None)
        return finalize(data) if finalize else data
    dsl.Fixture.finalize = _finalize
