"""S05: the numbers of lines (Lines.tla, LinesMC.tla, LinesTrace.tla)."""
import os
import threading

import numpy as np

from vlib import ds, env, report, tlc, traces

PID = "S05"


def board(rng, h, w):
    stones = rng.choice([0.0, 0.1, 0.5, 0.9])
    return np.array([[rng.choice([1, 2]) if rng.random() < stones else 0 for _ in range(w)] for _ in range(h)], dtype=np.int8)


def planes(rng, cells):
    """The planes of a board, in some of the ways an array can be laid out."""
    out = np.stack([cells == 1, cells == 2]).astype(rng.choice([np.int8, np.int8, np.uint8, np.int32, bool]))
    how = rng.random()
    if how < 0.2:
        out = np.asfortranarray(out)
    elif how < 0.35:
        out = np.repeat(out, 2, axis=2)[:, :, ::2]
    return out


def number(check, rng, cells, length, raw, mode):
    """What the real encoders say: [4][h][w], or None for a refusal."""
    from dataset.pipeline import PIPELINES
    h, w = cells.shape
    try:
        import line_encoding_cpp as native
        if mode == "native":
            got = np.full((4, h, w), -7, np.int32)
            native.transform_board_to_line_encoding(planes(rng, cells), got, length, raw_code=raw)
            return got
        if mode == "natives":
            n, at = rng.randint(1, 4), 0
            at = rng.randrange(n)
            boards = [cells if k == at else board(rng, h, w) for k in range(n)]
            got = np.full((n, 4, h, w), -7, np.int32)
            native.transform_boards_to_line_encoding(np.stack([np.stack([b == 1, b == 2]).astype(np.int8) for b in boards]), got, length, raw_code=raw)
            return got[at]
        pipe = PIPELINES["line_encoding"](line_length=length, raw_code=raw)
        if mode == "pipeline":
            data = dict(board_input=planes(rng, cells), other=5)
            before = data["board_input"].copy()
            out = pipe.process(data)
            if not (np.array_equal(before, data["board_input"]) and out["other"] == 5 and set(out) == {"board_input", "other", "line_encoding", "line_encoding_total_num"}):
                check.violation("numbering changed the rest of the sample", f"length {length}", dict(board=cells.tolist(), length=length, raw=raw))
            if int(out["line_encoding_total_num"]) != pipe.line_encoding_total_num:
                check.violation("the number of numbers served is wrong", f"length {length}", dict(length=length, raw=raw))
            return np.asarray(out["line_encoding"])
        boards = [board(rng, h, w), cells, board(rng, h, w)]
        out = pipe.process_batch(dict(board_input=np.stack([np.stack([b == 1, b == 2]).astype(np.int8) for b in boards])))
        if np.asarray(out["line_encoding_total_num"]).tolist() != [pipe.line_encoding_total_num] * 3:
            check.violation("the number of numbers served is wrong", f"length {length}, batch", dict(length=length, raw=raw))
        return np.asarray(out["line_encoding"])[1]
    except (ValueError, RuntimeError):
        return None


def streamed(check, rng):
    """The numbers real data sets attach to the boards they serve."""
    from dataset import build_dataset
    out = []
    kinds = ["processed_katago_numpy", "iterative_processed_katago_numpy", "batched_processed_katago_numpy"]
    for n in range(18 if check.thorough else 6):
        kind, hw = kinds[n % 3], rng.choice([(5, 5), (6, 6), (4, 7)])
        path = os.path.join(check.tmp, f"boards{n}.npz")
        ds.write_processed(path, [ds.random_record(rng, hw) for _ in range(8)])
        length, raw = rng.choice([3, 5, 9, 11]), rng.random() < 0.3
        kwargs = dict(boardsizes=[hw], fixed_side_input=rng.random() < 0.5, pipeline_args={"line_encoding": {"line_length": length, "raw_code": raw}}, shuffle=False)
        if kind.startswith("batched"):
            kwargs.update(pin_memory=False, prefetch_threads=rng.choice([0, 2]))
        else:
            kwargs["fixed_board_size"] = rng.choice([None, (8, 8), (7, 9)])
        if kind != "processed_katago_numpy":
            kwargs["apply_symmetry"] = rng.random() < 0.5
        data = build_dataset(kind, [path], runtime_context=ds.context(4), **kwargs)
        rows = [data[i] for i in range(len(data))] if kind == "processed_katago_numpy" else [
            {k: np.asarray(e.data[k])[i] for k in ("board_input", "line_encoding", "line_encoding_total_num")} for e in data for i in range(len(e.data["board_input"]))]
        if not rows:
            raise RuntimeError(f"{kind}: nothing was served")
        for row in rows:
            seen = np.asarray(row["board_input"])
            out.append((seen[0] + 2 * seen[1], length, raw, np.asarray(row["line_encoding"]), kind))
    return out


def body(check):
    env.activate(check.tmp)
    result = tlc.run(check.tmp, "LinesMC", constants=dict(Longest=9 if check.thorough else 7), init="Init", next_="Next", invariants=["Numbers"], heap="6g", timeout=600)
    if not result.ok:
        raise RuntimeError(result.output[-2000:])
    check.tlc(result, "LinesMC: no two lines share a number")
    from dataset.pipeline import PIPELINES
    from dataset.pipeline import line_encoding as module
    rng = check.rng
    cases, notes, used = [], [], {}

    def add(cells, length, raw, got, what, dirs=4):
        cases.append(dict(kind="board", board=np.asarray(cells).astype(int).tolist(), length=length, raw=raw, refused=got is None, got=[] if got is None else got.reshape(dirs, *cells.shape).astype(int).tolist()))
        notes.append(f"{what} {cells.shape[0]}x{cells.shape[1]} length {length} {'raw' if raw else 'compact'}")
        if got is not None and not raw:
            used.setdefault(length, set()).update(np.unique(got).tolist())

    wanted = 1500 if check.thorough else 260
    for n in range(wanted):
        raw = rng.random() < 0.3
        length = rng.choice([1, 3, 5, 7, 9, 11, 11, 11, 13, 15, 15 if raw else 17])
        if n % 25 == 0:
            length = rng.choice([-1, 0, 2, 10, 16, 17, 19, 21])
        limit = 32 - max(length, 1) // 2
        h, w = (rng.randint(1, 9), rng.randint(1, 9)) if n % 6 else rng.choice([(limit, 2), (3, limit), (1, limit), (limit, limit) if n % 30 == 0 else (2, limit), (limit + 1, 3), (2, limit + 1), (15, 15)])
        cells = board(rng, h, w)
        mode = rng.choice(["native", "natives", "pipeline", "batch"])
        add(cells, length, raw, number(check, rng, cells, length, raw, mode), mode)
    # lines on their own
    for n in range(wanted // 2):
        length = rng.choice([1, 3, 5, 7, 9, 11, 11, 13, 15, 17])
        limit = 32 - length // 2
        w = rng.choice([rng.randint(1, 15), rng.randint(1, limit), limit, limit + 1]) if n % 3 else length
        lines = np.stack([board(rng, 1, w)[0] for _ in range(rng.randint(1, 4))])
        try:
            got = module.transform_lines_to_line_encoding(lines if rng.random() < 0.7 else np.asfortranarray(lines), length)
        except (ValueError, RuntimeError):
            got = None
        for k in range(len(lines)):
            add(lines[k : k + 1], length, False, None if got is None else np.asarray(got)[k : k + 1], "lines", 1)
    for lines in (np.array([[0, 3, 1]], np.int8), np.array([[0, -1, 1]], np.int8), np.array([[0, 1, 1]], np.int32), np.array([0, 1, 1], np.int8)):
        try:
            module.transform_lines_to_line_encoding(lines, 3)
            check.violation("cells that are no cells were numbered", f"{lines.tolist()} {lines.dtype}", dict(lines=lines.tolist(), dtype=str(lines.dtype)))
        except ValueError:
            pass
    # several lengths at once, from threads
    jobs = [(board(rng, 12, 12), length, rng.random() < 0.3, rng.randint(0, 10**9)) for length in (5, 7, 9, 11, 13, 15, 5, 11)]
    answers = [None] * len(jobs)

    def work(k):
        import random
        cells, length, raw, seed = jobs[k]
        answers[k] = number(check, random.Random(seed), cells, length, raw, "pipeline")
    threads = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for (cells, length, raw, _), got in zip(jobs, answers):
        add(cells, length, raw, got, "thread")
    for cells, length, raw, got, kind in streamed(check, rng):
        add(cells, length, raw, got, kind)
    # how many numbers there are, and which are in use
    lengths = [(n, raw) for n in range(0, 20) for raw in (False, True)]
    for n, raw in lengths:
        case = dict(kind="length", length=n, raw=raw, refused=False, total=0, flags=-1, marked=[], unmarked=[])
        try:
            case["total"] = int(PIPELINES["line_encoding"](line_length=n, raw_code=raw).line_encoding_total_num)
            if not raw and case["total"] != module.get_total_num_encoding(n):
                case["total"] = -1
        except (ValueError, RuntimeError):
            case["refused"] = True
        if not raw and not case["refused"] and n <= (15 if check.thorough else 13):
            try:
                flags = np.asarray(module.get_encoding_usage_flags(n))
            except ValueError:
                flags = np.zeros(0)
            case["flags"] = int(np.count_nonzero(flags == 1)) if not np.any((flags != 0) & (flags != 1)) else -2
            case["unmarked"] = [c for c in sorted(used.get(n, ())) if not 0 <= c < len(flags) or not flags[c]][:5]
            if n <= (9 if check.thorough else 7):
                case["marked"] = np.flatnonzero(flags).tolist()
        cases.append(case)
        notes.append(f"length {n} {'raw' if raw else 'compact'}")

    def on_error(item):
        case = cases[item["case"] - 1]
        check.violation(item["clause"], notes[item["case"] - 1], dict(what=notes[item["case"] - 1], case={k: v for k, v in case.items() if k != "marked"}))
    traces.validate(check, "LinesTrace", cases, label="lines", on_error=on_error, lengths=[2] * len(cases), timeout=800)
    check.note("boards and lines", sum(c["kind"] == "board" for c in cases))
    check.sample(dict(what=notes[1], case=cases[1]))


report.main(PID, body)
