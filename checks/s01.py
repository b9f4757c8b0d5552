"""S01: what a sample looks like under side convention, symmetry and padding (Symmetry.tla, SampleTrace.tla)."""
import dataclasses
import os
import zlib

import numpy as np

from vlib import ds, env, report, traces

PID = "S01"
KINDS = ["default", "rotate", "flip", "flip_diag_rotate180"]


def millionths(a):
    return np.rint(np.asarray(a, dtype=np.float64) * 1e6).astype(int).tolist()


# -------------------------------------------------------------- the symmetry interface
def interface(check):
    from utils.data_utils import Move, Symmetry
    n = 7 if check.thorough else 5
    facts, table, kinds = traces.evaluate(check, "SymmetryTables", [], label="facts", constants=dict(N=n))
    if not all(facts):
        raise RuntimeError(f"Symmetry.tla contradicts itself: {facts}")
    for h in (1, 2):
        for w in (1, 2):
            for kind, want in zip(KINDS, kinds[h - 1][w - 1]):
                try:
                    got = sorted(s.value for s in Symmetry.available_symmetries((h, w), kind))
                except ValueError:
                    got = []
                if got != sorted(want):
                    check.violation("the symmetries of a kind", f"{h}x{w} {kind}: {got}, documented {sorted(want)}", dict(h=h, w=w, kind=kind, got=got))
    for h in range(1, n + 1):
        for w in range(1, n + 1):
            for k, want in enumerate(table[h - 1][w - 1]):
                if not want:
                    continue
                symmetry = Symmetry(k)
                grid = np.arange(h * w).reshape(h, w)
                image = symmetry.apply_to_array(np.stack([grid, grid]))
                turned = symmetry.apply_to_array(np.moveaxis(np.stack([grid, grid]), 0, -1), y_dim=0, x_dim=1)
                moves = [(m.x, m.y) for m in (symmetry.apply_to_move(Move(i % w, i // w), (h, w)) for i in range(h * w))]
                bad = [i for i in range(h * w) if tuple(want[i]) != moves[i]]
                if bad:
                    check.violation("a move goes elsewhere", f"{symmetry} on {h}x{w}: move {bad[0] % w, bad[0] // w} -> {moves[bad[0]]}, documented {want[bad[0]]}", dict(h=h, w=w, k=k))
                bad = [i for i in range(h * w) if image.shape[1:] != (h, w) or (image[:, want[i][1], want[i][0]] != i).any() or (turned[want[i][1], want[i][0]] != i).any()]
                if bad:
                    check.violation("an array is turned differently from a move", f"{symmetry} on {h}x{w}", dict(h=h, w=w, k=k))
                if not symmetry.apply_to_move(Move.PASS, (h, w)).is_pass:
                    check.violation("a pass moves", str(symmetry), dict(k=k))
                check.evaluations += h * w


# -------------------------------------------------------------- records and rows as TLC sees them
def stones(board):
    return board[0].astype(int) + 2 * board[1].astype(int)


def plain(record, plane=None):
    """A file's record; plane: size of the stored planes when they are larger than the board."""
    h, w = record.hw
    ph, pw = plane or record.hw
    pad = ((0, ph - h), (0, pw - w))
    flat = record.policy.reshape(-1)
    has_pass = len(flat) == h * w + 1
    return dict(h=h, w=w, stm=record.stm, cells=np.pad(stones(record.board), pad).tolist(), value=millionths(record.value),
                policy=millionths(np.pad(flat[:h * w].reshape(h, w), pad)), **{"pass": millionths(flat[-1]) if has_pass else -1},
                sparse=[] if record.sparse is None else np.moveaxis(record.sparse.astype(int), 0, -1).tolist(), moves=[list(m) for m in record.moves])


def seen(row, loose=False):
    """What one delivered row shows (loose: a flat policy may be as large as the board instead of the planes)."""
    row = {k: (v.numpy() if hasattr(v, "numpy") else v) for k, v in row.items()}
    board = np.asarray(row["board_input"])
    policy = np.asarray(row["policy_target"], dtype=np.float64)
    size = [int(v) for v in np.asarray(row["board_size"]).reshape(-1)]
    got_pass = -1
    if policy.ndim == 1:
        got_pass = millionths(policy[-1])
        policy = policy[:-1]
        if policy.size == board.shape[-1] * board.shape[-2]:
            policy = policy.reshape(board.shape[-2:])
        else:
            policy = policy.reshape(size)
            if loose:
                policy = np.pad(policy, ((0, board.shape[-2] - size[0]), (0, board.shape[-1] - size[1])))
    sparse = row.get("sparse_feature_input")
    text = row.get("position_string")
    last = row.get("last_move")
    return dict(size=size, cells=stones(board).tolist(), stm=int(np.asarray(row["stm_input"]).reshape(-1)[0]), value=millionths(row["value_target"]),
                policy=millionths(policy), **{"pass": got_pass}, sparse=[] if sparse is None else np.moveaxis(np.asarray(sparse).astype(int), 0, -1).tolist(),
                moves=[] if text is None else ds.parse_moves(str(text)), last=[] if last is None else [int(v) for v in np.asarray(last).reshape(-1)])


def images(grid):
    return [np.rot90(g, k) for g in (grid, grid.T) for k in range(4)]


def canonical(stm, cells, size):
    part = np.asarray(cells)[:size[0], :size[1]]
    return (stm, tuple(size), min((g.shape, g.astype(np.int8).tobytes()) for g in images(part)))


def index(records, fixed):
    out = {}
    for number, r in enumerate(records, 1):
        cells = np.asarray(r["cells"])
        if fixed and r["stm"] > 0:
            cells = np.choose(cells, [0, 2, 1, 3])
        out.setdefault(canonical(r["stm"], cells, (r["h"], r["w"])), []).append(number)
    return out


def entry(row, lookup, epoch=0, given=-1, refused=False, mutated=False, loose=False):
    if refused:
        return dict(refused=True, cand=[], epoch=epoch, given=given, got={}, mutated=False, shown=0)
    got = seen(row, loose)
    return dict(refused=False, cand=lookup.get(canonical(got["stm"], got["cells"], got["size"]), []), epoch=epoch, given=given, got=got, mutated=mutated,
                shown=zlib.crc32(repr(sorted(got.items())).encode()) & 0x3FFFFFFF)


def setup(**kwargs):
    return {**dict(fixed=False, kind="none", size=[], extra=True, refusable=False, stable=True, varied=False), **kwargs}


# -------------------------------------------------------------- samples handed to the post processor
def sample_of(record, rng, plane=None):
    from utils.data_utils import Move
    h, w = record.hw
    ph, pw = plane or record.hw
    pad = ((0, ph - h), (0, pw - w))
    policy = record.policy
    if policy.ndim == 1:
        if plane is not None and rng.random() < 0.5:
            policy = np.concatenate([np.pad(policy[:-1].reshape(h, w), pad).reshape(-1), policy[-1:]])
    else:
        policy = np.pad(policy, pad)
    data = dict(board_size=np.array(record.hw, dtype=np.int8), board_input=np.pad(record.board, ((0, 0), *pad)).astype(np.int8),
                stm_input=np.array([record.stm], dtype=np.float32), value_target=record.value.copy(), policy_target=policy.copy())
    if record.sparse is not None:
        data["sparse_feature_input"] = np.pad(record.sparse, ((0, 0), *pad)).astype(np.int32)
        data["sparse_feature_dim"] = ds.SPARSE_DIM.astype(np.int32)
    if record.moves:
        data["position"] = [Move(x, y) for x, y in record.moves]
    return data


def batch_cells(samples):
    return samples[0]["board_input"][0].size


def direct(check, rng, cases, notes):
    from utils.data_utils import SAMPLE_POST_PROCESSOR, Symmetry, post_process_data
    for number in range(800 if check.thorough else 120):
        h = rng.randint(1, 6)
        w = h if rng.random() < 0.6 else rng.randint(1, 6)
        kind = rng.choice(["none", "default", "default", *KINDS])
        fixed = rng.random() < 0.5
        records, rows = [], []
        with_pass = rng.random() < 0.4
        plane = (h + rng.randint(0, 2), w + rng.randint(0, 2)) if rng.random() < 0.3 else None
        sparse, moves = rng.random() < 0.3, rng.random() < 0.4
        size = None
        if plane is None and rng.random() < 0.5:
            size = (h + rng.randint(0, 3), w + rng.randint(0, 3))
        nrng = np.random.default_rng(rng.getrandbits(40))
        for _ in range(3):
            record = ds.random_record(rng, (h, w), stones=rng.randint(0, h * w), pass_move=with_pass)
            if sparse:
                record.sparse = nrng.integers(0, 200, size=(12, h, w)).astype(np.uint16)
            if moves:
                record.moves = [(-1, -1) if rng.random() < 0.2 else (rng.randrange(w), rng.randrange(h)) for _ in range(rng.randint(1, 5))]
            records.append(record)
        plains = [plain(r, plane) for r in records]
        for p in plains:        # padded sparse planes of a sample are as large as its board planes
            if p["sparse"] and plane:
                p["sparse"] = np.pad(np.asarray(p["sparse"]), ((0, plane[0] - h), (0, plane[1] - w), (0, 0))).tolist()
        lookup = index(plains, fixed)
        drop = rng.random() < 0.2 and not (kind == "none" and moves)
        choices = 0
        refusable = kind not in ("none", "default") and h != w
        if not refusable and kind != "none":
            choices = Symmetry.available_symmetries((h, w), kind)
        symmetric = False if kind == "none" else True if kind == "default" and rng.random() < 0.5 else kind
        shown = setup(fixed=fixed, kind=kind, size=list(size) if size else list(plane) if plane else [], extra=not drop, refusable=refusable)
        samples = [sample_of(r, rng, plane) for r in records]

        def digest(sample):
            return {k: (v.tobytes(), v.shape, v.dtype) if isinstance(v, np.ndarray) else [str(m) for m in v] for k, v in sample.items()}
        for sample in samples:
            for repeat in range(2):
                pick = None if not choices or rng.random() < 0.3 else rng.randrange(len(choices))
                before = digest(sample)
                try:
                    out = post_process_data(sample, fixed, size, symmetric, symmetry_index=pick, drop_extra=drop)
                except ValueError:
                    rows.append(entry(None, lookup, refused=True))
                    continue
                changed = digest(sample) != before
                contiguous = all(out[k].flags["C_CONTIGUOUS"] and not any(s < 0 for s in out[k].strides) for k in ("board_input", "policy_target"))
                if not contiguous:
                    check.violation("a prepared array cannot be collated", f"kind={kind} fixed={fixed} size={size}", dict(kind=kind, fixed=fixed, size=size))
                given = -1 if pick is None else choices[pick].value
                rows.append(entry(out, lookup, epoch=number if pick is None else -1 - len(rows), given=given, mutated=changed, loose=plane is not None))
        cases.append(dict(setup=shown, records=plains, rows=rows))
        notes.append(f"samples {h}x{w} plane={plane} size={size} kind={kind} fixed={fixed} pass={with_pass} sparse={sparse} moves={moves}")
        # the same samples as one batch
        if not refusable and not moves and (fixed or choices) and rng.random() < 0.5:
            policies = {s["policy_target"].shape for s in samples}
            if len(policies) > 1 or (with_pass and policies != {(batch_cells(samples) + 1,)}):
                continue
            batch = {k: np.stack([s[k] for s in samples]) for k in samples[0]}
            picks = [rng.randrange(len(choices)) for _ in samples] if choices else None
            before = digest(batch)
            try:
                out = SAMPLE_POST_PROCESSOR.process_batch(batch, fixed, symmetric, symmetry_indices=picks)
            except ValueError:
                out = None
            changed = digest(batch) != before
            rows = [entry(None, lookup, refused=True)] if out is None else [entry({k: v if k == "sparse_feature_dim" else v[i] for k, v in out.items()}, lookup, epoch=-i, given=choices[picks[i]].value if picks else -1, mutated=changed, loose=plane is not None)
                    for i in range(len(samples))]
            cases.append(dict(setup=setup(fixed=fixed, kind=kind, size=list(plane) if plane else []), records=plains, rows=rows))
            notes.append(f"batch {h}x{w} plane={plane} kind={kind} fixed={fixed}")


# -------------------------------------------------------------- real datasets
def padded_raw(folder, rng, inner, plane, count, with_pass):
    """A raw file whose boards are smaller than its planes."""
    os.makedirs(folder)
    (h, w), (ph, pw) = inner, plane
    records = [ds.random_record(rng, inner, stones=rng.randint(3, h * w), pass_move=with_pass) for _ in range(count)]
    planes = np.zeros((count, 5, ph, pw), dtype=np.uint8)
    policy = np.zeros((count, 2, ph * pw + 1), dtype=np.float32)
    for i, r in enumerate(records):
        planes[i, 0, :h, :w] = 1
        planes[i, 1:3, :h, :w] = r.board
        flat = r.policy.reshape(-1)
        policy[i, 0, :ph * pw] = np.pad(flat[:h * w].reshape(h, w), ((0, ph - h), (0, pw - w))).reshape(-1) * 29.0
        policy[i, 0, -1] = flat[-1] * 29.0 if with_pass else 2.0
    path = os.path.join(folder, "padded.npz")
    np.savez_compressed(path, binaryInputNCHWPacked=ds._pack_planes(planes), globalInputNC=np.asarray([[r.stm] for r in records], dtype=np.float32),
                        globalTargetsNC=np.stack([np.concatenate([r.value, np.zeros(4, np.float32)]) for r in records]).astype(np.float32), policyTargetsNCMove=policy)
    return path, records


def plans(check, rng):
    """(name, dataset type, paths, plain records, options, setup)"""
    out = []
    count = 30 if check.thorough else 20
    for number in range(60 if check.thorough else 15):
        folder = os.path.join(check.tmp, f"data{number}")
        kind = ["iterative_processed_katago_numpy", "batched_processed_katago_numpy", "iterative_katago_numpy", "iterative_sparse_numpy", "simple_binary", "packed_binary",
                "processed_katago_numpy", "katago_numpy"][number % 8]
        fixed = rng.random() < 0.5
        rect = "processed" in kind and rng.random() < 0.5
        symmetry = rng.choice([True, True, "default"] if rect else [True, True, "default", "rotate", "flip", "flip_diag_rotate180"])
        if rng.random() < 0.1:
            symmetry = False
        options = dict(fixed_side_input=fixed, apply_symmetry=symmetry)
        size = None
        with_pass = False
        if not kind.startswith("batched") and rng.random() < 0.5:
            size = (7, rng.choice([7, 8]))
            options["fixed_board_size"] = size
        drop = False
        if kind in ("iterative_sparse_numpy", "simple_binary", "packed_binary") and rng.random() < 0.4:
            options["drop_extra"] = drop = True
        if kind in ("simple_binary", "packed_binary"):
            fixture = ds.binary_fixture(folder, rng, kind, [([5, 6], count), (6, count // 2)], plies=(3, 14), **options)
            records, paths, kwargs = [plain(r) for r in fixture.records], fixture.paths, fixture.kwargs
        elif kind.endswith("katago_numpy") and "processed" not in kind and size is None and rng.random() < 0.6:
            inner = (5, 5) if symmetry in KINDS[1:] else rng.choice([(5, 5), (5, 6), (6, 4)])
            with_pass = rng.random() < 0.5
            path, found = padded_raw(folder, rng, inner, (7, 7), count, with_pass)
            records, paths = [plain(r, (7, 7)) for r in found], [path]
            kwargs = dict(boardsizes=[inner, (7, 7)], **options)
            if with_pass:
                kwargs["has_pass_move"] = True
        else:
            with_pass = "sparse" not in kind and rng.random() < 0.4
            sizes = [(5, 6), (6, 4), 5] if rect else [5, 6, 5]
            if kind in ("katago_numpy", "processed_katago_numpy"):        # map data has one shape
                sizes = sizes[:1]
            elif rng.random() < 0.5:
                sizes = [rng.choice(sizes)] * 3
            fixture = ds.npz_fixture(folder, rng, kind, [(s, count) for s in sizes], pass_move=with_pass, **options)
            records, paths, kwargs = [plain(r) for r in fixture.records], fixture.paths, fixture.kwargs
        name = f"{kind} {rect=} {symmetry=} {fixed=} {size=} {with_pass=} {drop=}"
        out.append((name, kind, paths, records, kwargs, setup(
            fixed=fixed, kind="none" if not symmetry else "default" if symmetry is True else symmetry, size=list(size) if size else [], extra=not drop,
            varied=bool(symmetry) and len(records) >= 20)))
    return out


def rows_of(data):
    data = {k: v for k, v in data.items()}
    count = len(data["board_input"])
    shared = {"sparse_feature_dim", "line_encoding_total_num"}
    return [{k: v if k in shared else v[i] for k, v in data.items()} for i in range(count)]


def served(check, rng, cases, notes):
    from dataset import build_dataset
    from utils.training_utils import ResumableSampler
    delivered = 0
    for name, kind, paths, records, kwargs, shown in plans(check, rng):
        lookup = index(records, shown["fixed"])
        rows = []
        seed = rng.randrange(1000)
        # the symmetry of a record in an epoch is the same however the epoch is cut into batches and ranks
        runs = [(4, 1), (rng.choice([3, 5]), 1), (2, 2)]
        swap = {"iterative_processed_katago_numpy": "batched_processed_katago_numpy", "batched_processed_katago_numpy": "iterative_processed_katago_numpy"}
        plain_kwargs = kwargs
        if kind in swap and not shown["size"]:
            runs.append((3, 0))     # the twin loader of the same files
        for batch, world in runs:
            if not world:
                world, kind = 1, swap[kind]
                kwargs = {k: v for k, v in plain_kwargs.items() if k not in ("pin_memory", "prefetch_threads")}
                if kind.startswith("batched"):
                    kwargs.update(pin_memory=False, prefetch_threads=0)
            try:
                if "iterative" in kind or "batched" in kind or "binary" in kind:
                    for rank in range(world):
                        data = build_dataset(kind, list(paths), runtime_context=ds.context(batch, world, rank, seed), shuffle=rng.random() < 0.7,
                                             **({"steps_per_epoch": len(records) // 4} if world > 1 and "binary" in kind else {}), **kwargs)
                        for epoch in range(3 if world == 1 else 1):
                            for envelope in data:
                                for row in rows_of(envelope.data):
                                    # (a budget over several ranks may pass over a file of games twice in one epoch)
                                    again = world > 1 and "binary" in kind
                                    rows.append(entry(row, lookup, epoch=1000 + len(rows) if again else int(envelope.token.epoch)))
                elif world == 1:
                    data = build_dataset(kind, list(paths), runtime_context=ds.context(batch, 1, 0, seed), **kwargs)
                    sampler = ResumableSampler(data, shuffle=rng.random() < 0.7, seed=seed)
                    for epoch in range(3):
                        rows += [entry(data[i], lookup, epoch=epoch) for i in sampler]
                        sampler.advance_yield_epoch()
            except ValueError as problem:
                rows.append(entry(None, lookup, refused=True))
                name += f" ({problem})"
        if not rows:
            raise RuntimeError(f"{name}: nothing was served")
        delivered += len(rows)
        cases.append(dict(setup=shown, records=records, rows=rows))
        notes.append(name)
    check.note("rows served by datasets", delivered)


def body(check):
    env.activate(check.tmp)
    rng = check.rng
    interface(check)
    cases, notes = [], []
    direct(check, rng, cases, notes)
    served(check, rng, cases, notes)

    def on_error(item):
        case = cases[item["case"] - 1]
        row = case["rows"][item["step"] - 1] if item["step"] <= len(case["rows"]) else None
        check.violation(item["clause"], f"{notes[item['case'] - 1]}: row {item['step']}",
                        dict(setup=case["setup"], row=row, records=[case["records"][i - 1] for i in row["cand"]] if row else None))
    traces.validate(check, "SampleTrace", cases, label="rows", on_error=on_error, lengths=[len(c["rows"]) + 2 for c in cases], timeout=850)
    check.sample(dict(what=notes[0], setup=cases[0]["setup"], row=cases[0]["rows"][0]))


report.main(PID, body)
