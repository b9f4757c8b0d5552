"""Data files of every supported format with records the harness can recognise.

A Record is what one training sample means: the board from the side to move,
who is to move, the value and the policy target.  Rows coming out of the real
pipeline are compared with the whole Record, so an id is only reported when
board, side, value and policy all belong to the same record.
"""
import os
import struct
from dataclasses import dataclass, field

import numpy as np


@dataclass
class Record:
    hw: tuple
    board: np.ndarray          # (2, H, W) int8: side to move, opponent
    stm: int                   # -1 black, +1 white
    value: np.ndarray          # (3,)
    policy: np.ndarray         # (H, W) or (H*W+1,)
    rule: int = 0
    id: int = 0
    file: int = 0
    entry: int = 0
    sub: int = 0
    sparse: np.ndarray | None = None
    moves: list = field(default_factory=list)


RULES = {0: "freestyle", 1: "standard", 4: "renju"}


# ---------------------------------------------------------------- records
def random_record(rng, hw, stones=None, pass_move=False, value=None):
    h, w = hw
    nrng = np.random.default_rng(rng.getrandbits(60))
    count = stones if stones is not None else rng.randint(3, max(4, h * w // 3))
    cells = nrng.permutation(h * w)[:count]
    board = np.zeros((2, h, w), dtype=np.int8)
    for k, cell in enumerate(cells):
        board[k % 2, cell // w, cell % w] = 1
    stm = rng.choice([-1, 1])
    if value is None:
        value = nrng.dirichlet([1.0, 1.0, 1.0])
    policy = nrng.integers(0, 30, size=h * w + (1 if pass_move else 0)).astype(np.float32)
    policy[int(nrng.integers(0, len(policy)))] += 5
    policy = policy / policy.sum()
    if not pass_move:
        policy = policy.reshape(h, w)
    return Record(hw, board, stm, np.asarray(value, dtype=np.float32), policy.astype(np.float32))


# ---------------------------------------------------------------- npz
def write_processed(path, records, compressed=True, drop=()):
    arrays = dict(
        bf=np.stack([r.board for r in records]).astype(np.uint8),
        gf=np.asarray([[r.stm] for r in records], dtype=np.float32),
        vt=np.stack([r.value for r in records]).astype(np.float32),
        pt=np.stack([r.policy for r in records]).astype(np.float32),
    )
    for name in drop:
        arrays.pop(name)
    (np.savez_compressed if compressed else np.savez)(path, **arrays)


def _pack_planes(planes):
    n, c, h, w = planes.shape
    return np.packbits(planes.reshape(n, c, h * w).astype(np.uint8), axis=2, bitorder="big")


def write_raw_katago(path, records, columns=1, td_level=0, masked_policy=True):
    n = len(records)
    h, w = records[0].hw
    planes = np.zeros((n, 5, h, w), dtype=np.uint8)
    planes[:, 0] = 1
    for i, r in enumerate(records):
        planes[i, 1:3] = r.board
    glob = np.zeros((n, columns), dtype=np.float32)
    for i, r in enumerate(records):
        if columns == 1:
            glob[i, 0] = r.stm
        else:
            glob[i] = np.linspace(-1, 1, columns)
            glob[i, 5] = 7.5 * r.stm
    targets = np.zeros((n, 4 * (td_level + 1) + 3), dtype=np.float32)
    targets[:] = 0.25
    for i, r in enumerate(records):
        targets[i, 4 * td_level:4 * td_level + 3] = r.value
    policy = np.zeros((n, 2, h * w + 1), dtype=np.float32)
    for i, r in enumerate(records):
        flat = r.policy.reshape(-1)
        policy[i, 0, :len(flat)] = flat * 37.0
        policy[i, 1] = 1.0
        if len(flat) == h * w:
            policy[i, 0, -1] = 3.0      # a pass weight that must be ignored
    np.savez_compressed(
        path, binaryInputNCHWPacked=_pack_planes(planes), globalInputNC=glob,
        globalTargetsNC=targets, policyTargetsNCMove=policy,
    )


SPARSE_DIM = np.array([442] * 8 + [3876] * 2 + [2380] * 2, dtype=np.uint32)


def write_sparse(path, records):
    n = len(records)
    h, w = records[0].hw
    planes = np.zeros((n, 3, h, w), dtype=np.uint8)
    planes[:, 0] = 1
    for i, r in enumerate(records):
        planes[i, 1:3] = r.board
    sparse = np.stack([r.sparse for r in records]).reshape(n, 12, h * w)
    policy = np.stack([r.policy.reshape(1, h * w) for r in records]) * 11.0
    np.savez_compressed(
        path, binaryInputNCHWPacked=_pack_planes(planes),
        globalInputNC=np.asarray([[r.stm] for r in records], dtype=np.float32),
        globalTargetsNC=np.stack([r.value for r in records]).astype(np.float32),
        policyTargetsNCHW=policy.astype(np.float32),
        sparseInputNCHWU8=sparse[:, :10].astype(np.uint8),
        sparseInputNCHWU16=sparse[:, 10:].astype(np.uint16), sparseInputDim=SPARSE_DIM,
    )


# ---------------------------------------------------------------- binary games
def _move(cell, w):
    return ((cell % w) << 5) | (cell // w)


def simple_bytes(size, rule, result, position, move):
    """position/move are cells (y*size+x); header fields are bit-packed low first."""
    ply = len(position)
    head = result | ply << 2 | size << 11
    tail = rule | _move(move, size) << 3
    return struct.pack("<HH", head, tail) + b"".join(
        struct.pack("<H", _move(c, size)) for c in position)


def packed_bytes(size, rule, result, init, groups, tag=3):
    """groups: list of lists of (cell or None for pass, eval or None)."""
    flat = [(gi, mi, len(g), m) for gi, g in enumerate(groups) for mi, m in enumerate(g)]
    total = len(init) + len(groups)
    word1 = size | rule << 5 | result << 8 | total << 12 | len(init) << 22
    word2 = tag | len(flat) << 14
    out = struct.pack("<II", word1, word2)
    out += b"".join(struct.pack("<H", _move(c, size)) for c in init)
    for gi, mi, count, (cell, score) in flat:
        bits = (1 if mi == 0 else 0) | (2 if mi == count - 1 else 0)
        bits |= (4 if score is None else 0) | (8 if cell is None else 0)
        bits |= (0 if cell is None else _move(cell, size)) << 6
        out += struct.pack("<Hh", bits, 0 if score is None else score)
    return out


def value_of(result):
    return np.array([result == 2, result == 0, result == 1], dtype=np.float32)


def planes_of(cells, size, start=0):
    """Absolute planes (black, white) of alternating moves; None is a pass."""
    planes = np.zeros((2, size, size), dtype=np.int8)
    for i, c in enumerate(cells):
        if c is not None:
            planes[(start + i) % 2, c // size, c % size] = 1
    return planes


def relative(planes, ply):
    return planes if ply % 2 == 0 else planes[::-1].copy()


def simple_record(rng, size, rule, ply):
    cells = rng.sample(range(size * size), ply + 1)
    result = rng.randint(0, 2)
    policy = np.zeros((size, size), dtype=np.float32)
    policy[cells[-1] // size, cells[-1] % size] = 1
    rec = Record((size, size), relative(planes_of(cells[:-1], size), ply),
                 -1 if ply % 2 == 0 else 1, value_of(result), policy, rule,
                 moves=[(c % size, c // size) for c in cells[:-1]])
    return rec, simple_bytes(size, rule, result, cells[:-1], cells[-1])


def packed_game(rng, size, rule, init_ply, moves, multi=1, passes=False, evals=False):
    """One game: records of every recorded move plus its bytes."""
    cells = rng.sample(range(size * size), init_ply + moves * multi)
    init, rest = cells[:init_ply], cells[init_ply:]
    result = rng.randint(0, 2)
    groups, records, played = [], [], list(init)
    for k in range(moves):
        options = rest[k * multi:k * multi + 1 + rng.randint(0, multi - 1)]
        best = options[0]
        if passes and rng.random() < 0.15:
            best = None
            options = [None] + options[1:]
        # without every evaluation the first move is the whole policy target
        scored = [(c, rng.randint(-900, 900) if evals and i == 0 else None)
                  for i, c in enumerate(options)]
        groups.append(scored)
        ply = init_ply + k
        policy = np.zeros((size, size), dtype=np.float32)
        if best is not None:
            policy[best // size, best % size] = 1
        res = result if k % 2 == 0 else 2 - result
        rec = Record((size, size), relative(planes_of(played, size), ply),
                     -1 if ply % 2 == 0 else 1, value_of(res), policy, rule, sub=k,
                     moves=[(-1, -1) if c is None else (c % size, c // size) for c in played])
        records.append(rec)
        played.append(best)
    return records, packed_bytes(size, rule, result, init, groups)


def parse_moves(text):
    """The moves a position string shows, pass as [-1, -1]."""
    moves, i = [], 0
    while i < len(text):
        if text.startswith("pass", i):
            moves.append([-1, -1])
            i += 4
            continue
        x, i = ord(text[i]) - ord("a"), i + 1
        j = i
        while j < len(text) and text[j].isdigit():
            j += 1
        moves.append([x, int(text[i:j]) - 1])
        i = j
    return moves


# ---------------------------------------------------------------- fixtures
class Fixture:
    """Files of one dataset type plus the records they contain, in file order."""

    def __init__(self, dataset_type, paths, records, kwargs, name=None):
        self.dataset_type, self.paths, self.kwargs = dataset_type, list(paths), dict(kwargs)
        self.records = records
        self.name = name or dataset_type
        for number, record in enumerate(records, 1):
            record.id = number
        self.fixed_side = bool(self.kwargs.get("fixed_side_input", False))
        self.fixed_size = self.kwargs.get("fixed_board_size")
        self.index = {}
        for record in records:
            key = self._key(*self.expected(record)[:2])
            if key in self.index:
                raise ValueError("harness generated two identical boards")
            self.index[key] = record

    def expected(self, record):
        board, policy, value = record.board, record.policy, record.value
        if self.fixed_side and record.stm > 0:
            board, value = board[::-1], value[[1, 0, 2]]
        if self.fixed_size:
            h, w = record.hw
            fh, fw = self.fixed_size
            board = np.pad(board, ((0, 0), (0, fh - h), (0, fw - w)))
            if policy.ndim == 2:
                policy = np.pad(policy, ((0, fh - h), (0, fw - w)))
            else:
                grid = np.pad(policy[:-1].reshape(h, w), ((0, fh - h), (0, fw - w)))
                policy = np.concatenate([grid.reshape(-1), policy[-1:]])
        return board, record.stm, value, policy

    @staticmethod
    def _key(board, stm):
        board = np.ascontiguousarray(np.asarray(board).astype(np.int8))
        return (board.shape, board.tobytes(), int(round(float(stm))))

    def identify(self, row):
        """id of the record a data row shows, or 0 when it is not one of them."""
        board = np.asarray(row["board_input"])
        stm = np.asarray(row["stm_input"]).reshape(-1)[0]
        record = self.index.get(self._key(board, stm))
        if record is None:
            return 0
        _, _, value, policy = self.expected(record)
        got = np.asarray(row["policy_target"], dtype=np.float64)
        if got.shape != policy.shape or not np.allclose(got, policy, atol=1e-5):
            return 0
        if not np.allclose(np.asarray(row["value_target"], dtype=np.float64), value, atol=1e-5):
            return 0
        size = tuple(int(v) for v in np.asarray(row["board_size"]).reshape(-1))
        if size not in (record.hw, self.fixed_size):
            return 0
        return record.id

    def identify_batch(self, data):
        data = {k: (v.numpy() if hasattr(v, "numpy") else v) for k, v in data.items()}
        count = len(data["board_input"])
        rows = []
        for i in range(count):
            row = {k: data[k][i] for k in
                   ("board_input", "stm_input", "value_target", "policy_target", "board_size")}
            rows.append(self.identify(row))
        return rows

    def build(self, ctx, **overrides):
        from dataset import build_dataset
        kwargs = {**self.kwargs, **overrides}
        return build_dataset(self.dataset_type, list(self.paths), runtime_context=ctx, **kwargs)


def context(batch, world=1, rank=0, seed=0, mode="train"):
    from dataset.core import DatasetRuntimeContext
    return DatasetRuntimeContext(batch * world, batch, world, rank, seed, mode)


def _unique(make, seen):
    while True:
        record = make()
        key = (record.board.tobytes(), record.board.shape, record.stm)
        if key not in seen:
            seen.add(key)
            return record


def npz_fixture(folder, rng, kind, files, pass_move=False, **kwargs):
    """files: list of (board size, rows). kind: a registered NPZ dataset type."""
    os.makedirs(folder, exist_ok=True)
    seen, records, paths = set(), [], []
    for number, (hw, rows) in enumerate(files):
        hw = (hw, hw) if isinstance(hw, int) else hw
        part = []
        for _ in range(rows):
            record = _unique(lambda: random_record(rng, hw, pass_move=pass_move), seen)
            record.file, record.entry = number, len(part)
            if kind == "iterative_sparse_numpy":
                record.sparse = np.random.default_rng(rng.getrandbits(40)).integers(
                    0, 200, size=(12, *hw)).astype(np.uint16)
            part.append(record)
        path = os.path.join(folder, f"part{number:02d}.npz")
        if "processed" in kind:
            write_processed(path, part, compressed=rng.random() < 0.7)
        elif kind == "iterative_sparse_numpy":
            write_sparse(path, part)
        else:
            write_raw_katago(path, part, columns=kwargs.get("columns", 1),
                             td_level=kwargs.get("value_td_level", 0))
        records += part
        paths.append(path)
    kwargs.pop("columns", None)
    sizes = sorted({tuple(r.hw) for r in records})
    options = dict(boardsizes=sizes, **kwargs)
    if pass_move:
        options["has_pass_move"] = True
    if kind == "batched_processed_katago_numpy":
        options.setdefault("pin_memory", False)
        options.setdefault("prefetch_threads", 0)
    return Fixture(kind, paths, records, options)


def binary_fixture(folder, rng, kind, files, rule=0, ext=None, plies=(2, 12), **kwargs):
    """files: list of (board size, entries); packed files hold games of several moves."""
    os.makedirs(folder, exist_ok=True)
    seen, records, paths = set(), [], []
    ext = ext or (".bin" if kind == "simple_binary" else ".binpack")
    for number, (size, entries) in enumerate(files):
        blob = []
        for entry in range(entries):
            bsize = size if isinstance(size, int) else rng.choice(size)
            while True:
                if kind == "simple_binary":
                    rec, data = simple_record(rng, bsize, rule, rng.randint(*plies))
                    recs = [rec]
                else:
                    recs, data = packed_game(rng, bsize, rule, rng.randint(*plies), rng.randint(1, 4),
                                             multi=rng.choice([1, 2]))
                keys = [(r.board.tobytes(), r.board.shape, r.stm) for r in recs]
                if not seen.intersection(keys) and len(set(keys)) == len(keys):
                    seen.update(keys)
                    break
            for r in recs:
                r.file, r.entry = number, entry
            records += recs
            blob.append(data)
        path = os.path.join(folder, f"part{number:02d}{ext}")
        payload = b"".join(blob)
        if ext.endswith("lz4"):
            import lz4.frame
            with lz4.frame.open(path, "wb") as stream:
                stream.write(payload)
        else:
            with open(path, "wb") as stream:
                stream.write(payload)
        paths.append(path)
    sizes = sorted({tuple(r.hw) for r in records})
    return Fixture(kind, paths, records, dict(boardsizes=sizes, rules=[RULES[rule]], **kwargs))


def multi_fixture(children, ratios, sync_length, **kwargs):
    """An iterative_multi dataset over child fixtures (ids renumbered over all)."""
    records, dataset_dict = [], {}
    for number, (child, ratio) in enumerate(zip(children, ratios)):
        options = dict(child.kwargs)
        dataset_dict[f"child{number}"] = dict(
            dataset_type=child.dataset_type, data_paths=list(child.paths), blend_ratio=ratio,
            **options)
        for record in child.records:
            record.child = number
            records.append(record)
    sizes = sorted({tuple(r.hw) for r in records})
    return Fixture("iterative_multi", [], records,
                   dict(boardsizes=sizes, dataset_dict=dataset_dict, sync_length=sync_length, **kwargs))


def standard_fixtures(root, rng, small=True):
    """One or more fixtures of every streaming dataset type."""
    out = []
    n = (lambda a: a) if small else (lambda a: a * 4)
    join = os.path.join

    def add(name, fixture):
        fixture.name = name
        out.append(fixture)

    for kind in ("iterative_processed_katago_numpy", "batched_processed_katago_numpy"):
        add(kind, npz_fixture(join(root, kind), rng, kind, [(5, n(9)), (5, n(4)), (5, n(8))]))
        add(kind + "-shapes", npz_fixture(join(root, kind + "s"), rng, kind, [(5, n(9)), (6, n(7)), (5, n(6)), (6, 2)]))
    add("processed-fixed", npz_fixture(join(root, "pf"), rng, "iterative_processed_katago_numpy",
                                       [(5, n(7)), (6, n(8))], fixed_board_size=(7, 7), fixed_side_input=True))
    add("katago", npz_fixture(join(root, "k"), rng, "iterative_katago_numpy", [(5, n(9)), (6, n(8)), (5, n(5))]))
    add("katago-pass", npz_fixture(join(root, "kp"), rng, "iterative_katago_numpy", [(6, n(9)), (6, n(8))],
                                   pass_move=True, columns=19, value_td_level=1))
    add("sparse", npz_fixture(join(root, "s"), rng, "iterative_sparse_numpy", [(5, n(6)), (5, n(9))]))
    add("sparse-plain", npz_fixture(join(root, "sp"), rng, "iterative_sparse_numpy", [(5, n(5)), (6, n(4))],
                                    drop_extra=True, fixed_side_input=True))
    add("simple", binary_fixture(join(root, "sb"), rng, "simple_binary", [(5, n(8)), (5, n(5)), (5, n(9))],
                                 sequential_read_quantum=2))
    add("simple-shapes", binary_fixture(join(root, "sbs"), rng, "simple_binary",
                                        [([5, 6], n(10)), ([5, 6], n(6)), (6, n(5))], sequential_read_quantum=3,
                                        sequential_active_streams=3))
    add("packed", binary_fixture(join(root, "pb"), rng, "packed_binary", [(6, n(5)), (6, n(4)), (6, n(3))],
                                 sequential_read_quantum=1))
    add("packed-shapes", binary_fixture(join(root, "pbs"), rng, "packed_binary",
                                        [([5, 6], n(5)), ([6, 7], n(4))], plies=(0, 9), sequential_read_quantum=2))
    a = npz_fixture(join(root, "m0"), rng, "iterative_processed_katago_numpy", [(5, n(9)), (5, n(6))])
    b = npz_fixture(join(root, "m1"), rng, "iterative_katago_numpy", [(5, n(10))])
    c = npz_fixture(join(root, "m2"), rng, "iterative_processed_katago_numpy", [(5, n(7)), (5, n(8))])
    add("multi-sync", multi_fixture([a, b, c], [1.0, 0.5, 1.0], True))
    a2 = npz_fixture(join(root, "m3"), rng, "iterative_processed_katago_numpy", [(5, n(9)), (6, n(6))])
    b2 = npz_fixture(join(root, "m4"), rng, "iterative_katago_numpy", [(6, n(6)), (5, n(5))])
    add("multi-all", multi_fixture([a2, b2], [2, 1], False))
    a3 = binary_fixture(join(root, "m5"), rng, "simple_binary", [(5, n(7)), (6, n(8))], plies=(10, 13),
                        drop_extra=True, sequential_read_quantum=2)
    b3 = binary_fixture(join(root, "m6"), rng, "packed_binary", [(5, n(3)), (6, n(3))], plies=(3, 5),
                        drop_extra=True, sequential_read_quantum=1)
    add("multi-binary", multi_fixture([a3, b3], [1, 3], False))
    return out
