"""S02: the binary game formats (Games.tla, GamesTrace.tla)."""
import math
import os
import struct

import numpy as np

from vlib import ds, env, report, traces

PID = "S02"
NAMES = {0: "freestyle", 1: "standard", 4: "renju"}
UNKNOWN = 99999


def words_of(blob):
    return list(struct.unpack(f"<{len(blob) // 2}H", blob))


def fill(value, *parts):
    """Bit fields, low end first: (value, width)..."""
    word, at = 0, 0
    for field, width in (value, *parts):
        assert 0 <= field < 1 << width
        word |= field << at
        at += width
    return word


def point(x, y):
    return x << 5 | y


def simple_file(rng, entries):
    out = []
    for _ in range(entries):
        size = rng.choice([5, 6, 6, 15, 22, 23, 31])
        cells = [(x, y) for x in range(size) for y in range(size)]
        ply = min(rng.choice([0, 1, 2, 5, rng.randint(0, 30), rng.randint(30, 300), rng.randint(250, 511)]), len(cells) - 1)
        moves = rng.sample(cells, ply + 1)
        out.append(struct.pack("<HH", fill((rng.randint(0, 2), 2), (ply, 9), (size, 5)), fill((rng.choice(list(NAMES)), 3), (point(*moves[-1]), 13))))
        out += [struct.pack("<H", point(*m)) for m in moves[:-1]]
    return b"".join(out)


def packed_file(rng, games, evals):
    """The bytes and, per game, the evaluations of every turn."""
    out, turns_of = [], []
    for _ in range(games):
        size = rng.choice([5, 6, 6, 9, 15, 31])
        cells = [(x, y) for x in range(size) for y in range(size)]
        rng.shuffle(cells)
        init = [cells.pop() for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, 12)]))]
        turns, total = [], 0
        for _ in range(rng.choice([1, 1, 2, 3, rng.randint(0, 7)])):
            if not cells:
                break
            width = rng.choice([1, 1, 2, 3, 4])
            options = rng.sample(cells, min(width, len(cells)))
            options = [None if rng.random() < 0.1 and None not in options[:i] else m for i, m in enumerate(options)]
            if options.count(None) > 1:
                options = [m for m in options if m is not None] or [None]
            scored = [(m, None if rng.random() < 0.15 else rng.choice(evals)) for m in options]
            turns.append(scored)
            if scored[0][0] is not None:
                cells.remove(scored[0][0])
        flat = [(n == 0, n == len(t) - 1, m, e) for t in turns for n, (m, e) in enumerate(t)]
        first = fill((size, 5), (rng.choice(list(NAMES)), 3), (rng.randint(0, 2), 4), (len(init) + len(turns), 10), (len(init), 10))
        out.append(struct.pack("<II", first, fill((rng.getrandbits(14), 14), (len(flat), 18))))
        out += [struct.pack("<H", point(*m)) for m in init]
        for head, tail, m, e in flat:
            bits = fill((int(head), 1), (int(tail), 1), (int(e is None), 1), (int(m is None), 1), (rng.getrandbits(2), 2), (rng.getrandbits(10) if m is None else point(*m), 10))
            out.append(struct.pack("<Hh", bits, rng.randint(-99, 99) if e is None else e))
        turns_of.append([[e for _, e in t] for t in turns])
    return b"".join(out), turns_of


def winrate(e, scale, mate, soft):
    if not soft and abs(e) >= mate:
        return 1.0 if e > 0 else 0.0
    return 1.0 / (1.0 + math.exp(-e / scale)) if e > -700 * scale else 0.0


def weights(evals, temperature, rate):
    if temperature == 0 or any(e is None for e in evals):
        return [0] * len(evals)
    rates = [rate(e) for e in evals]
    parts = [math.exp((r - max(rates)) / temperature) for r in rates]
    return [round(10000 * p / sum(parts)) for p in parts]


def seen(row, extra):
    row = {k: (v.numpy() if hasattr(v, "numpy") else v) for k, v in row.items()}
    board = np.asarray(row["board_input"])
    policy = np.asarray(row["policy_target"], dtype=np.float64)
    units = lambda a: np.rint(np.asarray(a, dtype=np.float64) * 10000).astype(int).tolist()
    last = -1
    if policy.ndim == 1:
        last, policy = units(policy[-1]), policy[:-1].reshape(board.shape[-2:])
    got = dict(hw=[int(v) for v in row["board_size"]], cells=(board[0].astype(int) + 2 * board[1].astype(int)).tolist(),
               stm=int(np.asarray(row["stm_input"]).reshape(-1)[0]), value=units(row["value_target"]), policy=units(policy), **{"pass": last})
    if extra:
        got.update(moves=ds.parse_moves(str(row["position_string"])), ply=int(np.asarray(row["ply"]).reshape(-1)[0]), rule=int(np.asarray(row["rule_index"]).reshape(-1)[0]))
        if "raw_eval" in row:
            e = float(np.asarray(row["raw_eval"]).reshape(-1)[0])
            got["eval"] = UNKNOWN if math.isnan(e) else int(e)
    return got


def body(check):
    env.activate(check.tmp)
    from dataset import build_dataset
    rng = check.rng
    cases, notes = [], []
    for number in range(360 if check.thorough else 66):
        kind = ["simple", "packed", "packed"][number % 3]
        rules = rng.sample(list(NAMES.values()), rng.choice([1, 2, 3, 3]))
        sizes = rng.choice([[5, 6, 9, 15, 22, 23, 31], [5, 6, 22], [6, 15, 31], [6]])
        extra = rng.random() < 0.7
        fixed = rng.random() < 0.3
        config, options, win, soft = {}, dict(passmove=False), [], []
        if kind == "simple":
            blob = simple_file(rng, rng.randint(3, 14))
        else:
            scale, mate, soft_mate = rng.choice([200, 200, 90]), rng.choice([29000, 29000, 400]), rng.random() < 0.3
            temperature = rng.choice([0.05, 0.2, 0.0, 1.0])
            value_lambda, dynamic, mate_multi = rng.choice([0.0, 0.25, 0.6, 1.0]), rng.random() < 0.5, rng.random() < 0.3
            passmove = rng.random() < 0.5
            evals = [rng.randint(-700, 700) for _ in range(4)] + [29500, -29800, 0, mate, -mate, mate - 1, 32767, -32768]
            blob, turns = packed_file(rng, rng.randint(3, 8), evals)
            rate = lambda e: winrate(e, scale, mate, soft_mate)
            win = [[e, round(10000 * rate(e))] for e in sorted({s * e for e in evals for s in (1, -1)})]
            soft = [[weights(t, temperature, rate) for t in game] for game in turns]
            options = dict(passmove=passmove, **{"lambda": round(value_lambda * 10000)}, dynamic=dynamic, mate=mate, matemulti=mate_multi, temperature0=temperature == 0)
            config = dict(has_pass_move=passmove, value_td_lambda=value_lambda, dynamic_value_lambda=dynamic, multipv_temperature=temperature,
                          use_mate_multipv=mate_multi, winrate_model_args=dict(scaling_factor=scale, eval_mate_threshold=mate, soft_mate_winrate=soft_mate))
        folder = os.path.join(check.tmp, f"games{number}")
        os.makedirs(folder)
        packed_away = rng.random() < 0.4
        path = os.path.join(folder, "games" + (".bin" if kind == "simple" else ".binpack") + (".lz4" if packed_away else ""))
        if packed_away:
            import lz4.frame
            with lz4.frame.open(path, "wb") as stream:
                stream.write(blob)
        else:
            with open(path, "wb") as stream:
                stream.write(blob)
        rows = []
        try:
            data = build_dataset(f"{kind}_binary", [path], runtime_context=ds.context(1, mode="validate"), rules=rules, boardsizes=[(s, s) for s in sizes], shuffle=False,
                                 fixed_side_input=fixed, drop_extra=not extra, sequential_active_streams=1, **config)
            for envelope in data:
                assert len(envelope.data["board_input"]) == 1
                rows.append(seen({k: v[0] for k, v in envelope.data.items()}, extra))
        except Exception as problem:
            empty = not rows and "no global batch" in str(problem)
            if not empty:  # nothing of the file was asked for: an empty epoch is refused
                rows.append(dict(hw=[0, 0]))
            check.note("empty epochs" if empty else "reader errors", 1)
            notes_extra = "" if empty else f" ({problem})"
        else:
            notes_extra = ""
        cases.append(dict(format=kind, words=words_of(blob), options=options, win=win, soft=soft, rules=rules, sizes=sizes, extra=extra, fixed=fixed, rows=rows))
        notes.append(f"{kind} rules={rules} sizes={sizes} extra={extra} fixed={fixed} {config}{notes_extra}")

    def on_error(item):
        case = cases[item["case"] - 1]
        row = case["rows"][item["step"] - 1] if item["step"] <= len(case["rows"]) else None
        check.violation(item["clause"], f"{notes[item['case'] - 1]}: row {item['step']}", dict(case={k: v for k, v in case.items() if k != "rows"}, row=row))
    traces.validate(check, "GamesTrace", cases, label="games", on_error=on_error, lengths=[len(c["rows"]) + 2 for c in cases], timeout=850)
    check.note("rows", sum(len(c["rows"]) for c in cases))
    check.sample(dict(what=notes[1], words=cases[1]["words"][:40], row=cases[1]["rows"][:1]))


report.main(PID, body)
