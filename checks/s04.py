"""S04: forbidden points of Renju (Renju.tla)."""
import json

import numpy as np

from vlib import ds, env, report, traces

PID = "S04"
DIRS = [(1, 0), (0, 1), (1, 1), (1, -1)]


def shape(rng, board, x, y, d, density):
    h, w = board.shape
    offsets = [k for k in range(-5, 6) if k]
    black = set(rng.sample([-4, -3, -2, -1, 1, 2, 3, 4], rng.choice([2, 2, 2, 3, 3, 4, 5])))
    if rng.random() < 0.6:      # compact rows are what matters
        start = rng.randint(-4, 0)
        black = {start + k for k in range(5) if rng.random() < 0.75} - {0}
    for k in offsets:
        xx, yy = x + k * d[0], y + k * d[1]
        if 0 <= xx < w and 0 <= yy < h and board[yy, xx] == 0:
            if k in black:
                board[yy, xx] = 1
            elif rng.random() < density:
                board[yy, xx] = 2


def position(rng):
    h, w = rng.choice([(5, 5), (6, 9), (9, 9), (9, 9), (11, 11), (11, 8), (15, 15), (22, 22), (7, 22)])
    board = np.zeros((h, w), dtype=np.int8)
    if rng.random() < 0.25:
        p = rng.uniform(0.1, 0.45)
        q = rng.uniform(0.0, 0.25)
        for y in range(h):
            for x in range(w):
                r = rng.random()
                board[y, x] = 1 if r < p else 2 if r < p + q else 0
        return board
    centres = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if centres and rng.random() < 0.7:        # a second centre on the line of the first: recursion
            x0, y0 = rng.choice(centres)
            d = rng.choice(DIRS)
            k = rng.choice([-3, -2, -1, 1, 2, 3])
            x, y = x0 + k * d[0], y0 + k * d[1]
            if not (0 <= x < w and 0 <= y < h):
                continue
        else:
            x, y = rng.randrange(w), rng.randrange(h)
        board[y, x] = 0
        centres.append((x, y))
        for d in rng.sample(DIRS, rng.choice([1, 2, 2, 3, 4])):
            shape(rng, board, x, y, d, rng.choice([0.0, 0.05, 0.2]))
        for cx, cy in centres:
            board[cy, cx] = 0
    return board


def run(pipeline, planes, stm, batch, rng, size=None):
    data = dict(board_input=planes, stm_input=np.array([stm], dtype=np.float32))
    if size is not None:
        data["board_size"] = np.array(size, dtype=np.int8)
    try:
        if batch:
            other = np.zeros_like(planes)
            stack = [other, planes, other]
            rows = dict(board_input=np.stack(stack), stm_input=np.array([[-stm], [stm], [1.0]], dtype=np.float32))
            if size is not None:
                rows["board_size"] = np.array([[1, 1], size, planes.shape[1:]], dtype=np.int8)
            out = pipeline.process_batch(rows)
            return np.asarray(out["forbidden_point"])[1]
        before = planes.copy()
        out = pipeline.process(data)
        assert np.array_equal(before, planes)
        return np.asarray(out["forbidden_point"])
    except (ValueError, RuntimeError):
        return None


def streamed(check, rng):
    """The maps real datasets attach to the boards they serve, padded or not."""
    import dataclasses
    import os
    from dataset import build_dataset
    cases = []
    kinds = ["processed_katago_numpy", "iterative_processed_katago_numpy", "batched_processed_katago_numpy"]
    for number in range(24 if check.thorough else 6):
        kind = kinds[number % 3]
        records = []
        size = rng.choice([7, 9, 11])
        while len(records) < 12:
            board = position(rng)
            side = min(board.shape)
            if side < size or not board.any():
                continue
            board = board[:size, :size]
            stm = rng.choice([-1, 1])
            planes = [board == 1, board == 2] if stm < 0 else [board == 2, board == 1]
            record = ds.random_record(rng, (size, size))
            records.append(dataclasses.replace(record, board=np.stack(planes).astype(np.int8), stm=stm))
        folder = os.path.join(check.tmp, f"boards{number}")
        os.makedirs(folder)
        path = os.path.join(folder, "part.npz")
        ds.write_processed(path, records)
        side = rng.random() < 0.5
        kwargs = dict(boardsizes=[(size, size)], fixed_side_input=side, pipeline_args={"forbidden_point": {"fixed_side_input": side}})
        if kind.startswith("batched"):
            kwargs.update(pin_memory=False, prefetch_threads=0)
        else:       # that one has no padding
            kwargs["fixed_board_size"] = rng.choice([None, (size + 1, size + 2), (15, 15)])
        if rng.random() < 0.5:
            kwargs["apply_symmetry"] = True
        if kind == "processed_katago_numpy":
            kwargs.pop("apply_symmetry", None)
        data = build_dataset(kind, [path], runtime_context=ds.context(4), **kwargs)
        rows = []
        if kind == "processed_katago_numpy":
            rows = [data[i] for i in range(len(records))]
        else:
            for envelope in data:
                batch = {k: np.asarray(v) for k, v in envelope.data.items() if k in ("board_input", "stm_input", "board_size", "forbidden_point")}
                rows += [{k: v[i] for k, v in batch.items()} for i in range(len(batch["board_input"]))]
        if not rows:
            raise RuntimeError(f"{kind}: nothing was served")
        for row in rows:
            cases.append(dict(planes=np.asarray(row["board_input"]).astype(int).tolist(), fixed=side, stm=int(np.asarray(row["stm_input"]).reshape(-1)[0]),
                              size=[int(v) for v in row["board_size"]], refused=False, map=np.asarray(row["forbidden_point"]).astype(int).tolist()))
    return cases


def body(check):
    env.activate(check.tmp)
    from dataset.pipeline import PIPELINES
    rng = check.rng
    k = 5 if check.thorough else 4
    size = 2 * k + 1
    answers, facts = traces.evaluate(check, "RenjuLines", [], label="lines", constants=dict(K=k), timeout=850)
    if not facts:
        raise RuntimeError("Renju.tla contradicts itself on a line")
    check.note("lines", len(answers))
    fixed = PIPELINES["forbidden_point"](fixed_side_input=True)
    # all lines of 2K+1 points, laid in the four directions
    for n, want in enumerate(answers):
        cells, m = [], n
        for _ in range(2 * k):
            cells.append(m % 3)
            m //= 3
        cells.insert(k, 0)
        for d in DIRS:
            board = np.zeros((size, size) if d[0] and d[1] else (1, size) if d[0] else (size, 1), dtype=np.int8)
            for i, c in enumerate(cells):
                y = i if d[1] > 0 else size - 1 - i if d[1] < 0 else 0
                board[y, i if d[0] else 0] = c
            planes = np.stack([board == 1, board == 2]).astype(np.int8)
            got = run(fixed, planes, -1, False, rng)
            at = (k if d[1] else 0, k if d[0] else 0)
            if got is None or int(got[at]) != want:
                check.violation("a point on a line is judged wrongly", f"{cells} {d}: {None if got is None else int(got[at])}, the rules say {want}",
                                dict(cells=cells, direction=d))
        check.evaluations += 4
    cases, notes = [], []
    marked = 0
    for n in range(6000 if check.thorough else 600):
        board = position(rng) if n % 40 else np.zeros(rng.choice([(23, 9), (5, 23), (22, 22), (1, 1), (23, 23)]), dtype=np.int8)
        stm = rng.choice([-1, 1])
        side = rng.random() < 0.5
        planes = np.stack([board == 1, board == 2])
        if not side and stm > 0:
            planes = planes[::-1]
        size = None
        if rng.random() < 0.4:      # a smaller board in larger planes
            size = board.shape
            room = rng.choice([(0, 1), (1, 0), (1, 1), (2, 5)])
            if max(size) < 20:
                planes = np.pad(planes, ((0, 0), (0, room[0]), (0, room[1])))
        planes = np.ascontiguousarray(planes.astype(rng.choice([np.int8, np.int8, np.uint8, bool])))
        if rng.random() < 0.2:
            planes = np.flip(np.ascontiguousarray(np.flip(planes, axis=2)), axis=2)
        got = run(PIPELINES["forbidden_point"](fixed_side_input=side), planes, stm, rng.random() < 0.4, rng, size)
        cases.append(dict(planes=planes.astype(int).tolist(), fixed=side, stm=stm, size=list(board.shape), refused=got is None, map=[] if got is None else got.astype(int).tolist()))
        if got is not None:
            marked += int(got.sum())
    check.note("points marked forbidden", marked)
    served = streamed(check, rng)
    check.note("boards served by datasets", len(served))
    check.note("points marked in them", sum(sum(map(sum, c["map"])) for c in served))
    cases += served

    def on_error(item):
        case = cases[item["case"] - 1]
        first, second = (case["planes"][0], case["planes"][1]) if case["fixed"] or case["stm"] < 0 else (case["planes"][1], case["planes"][0])
        text = ["".join("x" if a else "o" if b else "." for a, b in zip(r, s)) for r, s in zip(first, second)]
        got = ["".join(map(str, r)) for r in case["map"]]
        check.violation(item["clause"], f"row {item['step']}: {text} -> {got}", dict(board=text, map=got, case=case))
    traces.validate(check, "RenjuTrace", cases, label="boards", on_error=on_error, timeout=850,
                    lengths=[(1 if c["refused"] else len(c["planes"][0])) + 1 for c in cases])
    check.sample(dict(board=["".join("x" if a else "o" if b else "." for a, b in zip(r, s)) for r, s in zip(*cases[1]["planes"])], map=cases[1]["map"]))


report.main(PID, body)
