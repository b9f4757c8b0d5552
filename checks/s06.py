"""S06: what the NPZ formats mean (Npz.tla, NpzTrace.tla)."""
import os
from fractions import Fraction

import numpy as np

from vlib import ds, env, report, traces

PID = "S06"
WHOLE = dict(s="slice", lo=[], hi=[], st=[])


def fractions(a):
    if a.ndim:
        return [fractions(x) for x in a]
    f = Fraction(float(a))
    return [f.numerator, f.denominator]


def condition(rng, columns):
    """(text, tree) over one-entry-per-row pieces of the columns."""
    def piece():
        name = rng.choice(list(columns))
        shape = columns[name].shape
        at = [rng.randint(-n, n - 1) for n in shape[1:]]
        return (f"{name}[:, {', '.join(map(str, at))}]", dict(k="at", of=dict(k="col", name=name), index=[WHOLE] + [dict(s="int", v=i) for i in at]), columns[name].dtype.kind)

    def compare():
        a, ta, ka = piece()
        op = rng.choice(["<", "<=", ">", ">=", "==", "!="])
        if rng.random() < 0.3:
            b, tb, kb = piece()
            if ka == kb == "f" and "bf" not in a + b and rng.random() < 0.5:
                return f"({a} - {b} {op} 0.25)", dict(k="cmp", ops=[op], args=[dict(k="bin", op="-", l=ta, r=tb), dict(k="num", n=1, d=4)])
        else:
            n, d = rng.choice([(0, 1), (1, 1), (1, 2), (1, 4), (2, 1)])
            b, tb = str(n / d if d > 1 else n), dict(k="num", n=n, d=d)
        return f"({a} {op} {b})", dict(k="cmp", ops=[op], args=[ta, tb])
    text, tree = compare()
    for _ in range(rng.choice([0, 0, 1, 2])):
        op = rng.choice("&|^")
        other, too = compare()
        text, tree = f"({text} {op} {other})", dict(k="bin", op=op, l=tree, r=too)
    if rng.random() < 0.2:
        text, tree = f"~{text}", dict(k="un", op="~", of=tree)
    return text, tree


def array(rng, shape, values, dtypes):
    flat = [rng.choice(values) for _ in range(int(np.prod(shape)))]
    out = np.array(flat, dtype=np.float64).reshape(shape).astype(rng.choice(dtypes))
    return np.asfortranarray(out) if rng.random() < 0.15 else out


QUARTERS = [k / 4 for k in range(-2, 9)]


def processed(rng, n, hw, layout):
    h, w = hw
    out = dict(bf=array(rng, (n, layout["planes"], h, w), [0, 0, 1], ["uint8", "int8", "float32"]), vt=array(rng, (n, layout["values"]), QUARTERS, ["float32", "float64", "float16"]))
    if layout["gf"]:
        out["gf"] = array(rng, (n, layout["gf"]), [-1, 1], ["float32", "int8", "float64"])
    if layout["pt"]:
        out["pt"] = array(rng, (n, h, w) if layout["pt"] == "planes" else (n, h * w + 1), [k / 64 for k in range(33)], ["float32", "float16", "float64"])
    return out, out, None


def raw(rng, n, hw, layout, sparse=False):
    f = hw[0]
    planes = np.array([rng.randint(0, 1) for _ in range(n * (3 if sparse else 5) * f * f)], dtype=np.uint8).reshape(n, -1, f, f)
    planes[:, 0] = 0
    for i in range(n):
        h, w = (f, f) if sparse or not layout["partial"] or rng.random() < 0.4 else (rng.randint(f - 2, f), rng.randint(f - 2, f))
        planes[i, 0, :h, :w] = 1
        planes[i, 1:] *= planes[i, :1]
    gf = array(rng, (n, 1 if sparse else layout["gf"]), [-1, 1] if sparse or layout["gf"] == 1 else [-7.5, -0.5, 0.5, 7.5], ["float32", "float64"])
    vt = array(rng, (n, 3 if sparse else 4 * layout["levels"]), QUARTERS, ["float32", "float64"])
    if sparse:
        pt = array(rng, (n, 1, f * f), [0, 0, 1, 2, 7, 30], ["float32", "int16"])
    else:
        pt = array(rng, (n, 2, f * f + 1), [0, 0, 1, 2, 7, 30], ["int16", "float32"])
    if rng.random() < 0.3:
        pt[0, 0, : f * f] = 0
    names = dict(binaryInputNCHWPacked=np.packbits(planes.reshape(n, -1, f * f), axis=2, bitorder="big"), globalInputNC=gf, globalTargetsNC=vt)
    names["policyTargetsNCHW" if sparse else "policyTargetsNCMove"] = pt
    features = None
    if sparse:
        features = np.array([rng.choice([0, 1, 7, 200, 255]) for _ in range(n * 12 * f * f)], dtype=np.uint16).reshape(n, 12, f * f)
        features[:, 10:] *= 9
        names.update(sparseInputNCHWU8=features[:, :10].astype(np.uint8), sparseInputNCHWU16=features[:, 10:], sparseInputDim=ds.SPARSE_DIM)
        features = features.reshape(n, 12, f, f)
    return names, dict(bf=planes, gf=gf, vt=vt, pt=pt[:, 0]), features


def units(a):
    return np.rint(np.asarray(a, dtype=np.float64) * 10000).astype(int).tolist()


def seen(row, features):
    row = {k: (v.numpy() if hasattr(v, "numpy") else np.asarray(v)) for k, v in row.items()}
    policy, last = np.asarray(row["policy_target"], dtype=np.float64), -1
    if policy.ndim == 1:
        last, policy = units(policy[-1]), policy[:-1].reshape(row["board_input"].shape[-2:])
    got = dict(size=[int(v) for v in row["board_size"]], board=row["board_input"].astype(int).tolist(), side=units(row["stm_input"].reshape(-1)), value=units(row["value_target"]),
               grid=units(policy), features=[], **{"pass": last})
    if features:
        got["features"] = row["sparse_feature_input"].astype(int).tolist()
    return got


def body(check):
    env.activate(check.tmp)
    import warnings
    warnings.simplefilter("ignore")
    from dataset import build_dataset
    rng = check.rng
    cases, notes = [], []
    for number in range(840 if check.thorough else 196):
        kind = ["katago_numpy", "iterative_katago_numpy", "processed_katago_numpy", "iterative_processed_katago_numpy", "batched_processed_katago_numpy",
                "iterative_sparse_numpy", "batched_processed_katago_numpy"][number % 7]
        family = "sparse" if "sparse" in kind else "processed" if "processed" in kind else "raw"
        one = kind == "processed_katago_numpy"
        fixed, passes = rng.random() < 0.45, rng.random() < 0.4 and family != "sparse"
        layout = dict(planes=rng.choice([2, 2, 3, 4]), values=rng.choice([3, 3, 5]), gf=rng.choice([1, 1, 2, 0] if family == "processed" else [1, 1, 19]), levels=rng.choice([1, 2, 3]),
                      pt=rng.choice(["planes", "flat", "flat", None]), partial=rng.random() < 0.5)
        plain = kind == "batched_processed_katago_numpy" and number % 7 == 6 or kind.startswith("iterative_processed") and rng.random() < 0.3  # read by its headers
        if plain:
            layout.update(planes=2, values=3, gf=rng.choice([0, 1]))
        frames = [(5, 5), (6, 6), (7, 7)] if family != "processed" else [(5, 5), (6, 6), (5, 7), (4, 6)]
        rng.shuffle(frames)
        batch = 1 if kind.startswith("iterative") and rng.random() < 0.4 else rng.choice([1, 2, 3, 5])
        single = one or batch > 1 or kind == "katago_numpy"
        frames = frames[: rng.choice([1, 2])]
        if family == "raw" and single:
            frames = frames[:1]
        pad = (8, 9) if rng.random() < 0.3 else None
        config = dict(fixed_side_input=fixed, fixed_board_size=pad)
        names, folder = [], os.path.join(check.tmp, f"npz{number}")
        os.makedirs(folder)
        files = []
        for k in range(rng.randint(1, 3)):
            n = rng.randint(1, rng.choice([2, 6]))
            hw = frames[0] if k == 0 or not rng.random() < 0.5 else rng.choice(frames)
            stored, columns, features = processed(rng, n, hw, layout) if family == "processed" else raw(rng, n, hw, layout, family == "sparse")
            path = os.path.join(folder, f"{k}.npz")
            (np.savez if rng.random() < 0.4 and not plain else np.savez_compressed)(path, **stored)
            files.append(path)
            names.append((dict(kind=family, n=n, hw=list(hw)), columns, stored, features))
        sizes = {tuple(hw) for _, c, _, _ in names for hw in ([names[0][0]["hw"]] if family != "raw" else [[int(m[:, 0].sum()), int(m[0].sum())] for m in c["bf"][:, 0]])}
        if family != "raw" and not single:
            sizes |= set(frames) if rng.random() < 0.5 and not plain else set()
        if family == "raw" and rng.random() < 0.3:
            sizes = set(rng.sample(sorted(sizes), rng.randint(1, len(sizes))))
        if family == "raw" and single and not pad:
            sizes = {rng.choice(sorted(sizes))}
        sizes = sorted(sizes)
        asked = dict(sizes=sizes, stm=0, condition=[], bchannels=[], schannel=[], vchannels=[], level=0, fixed=fixed, pad=list(pad or []), swap=[5, 6, 7, 8, 1, 2, 3, 4, 10, 9, 12, 11], **{"pass": passes})
        text = None
        if plain:
            config["has_pass_move"] = passes
        elif family != "sparse":
            config["has_pass_move"] = passes
            if layout["gf"] and rng.random() < 0.3:
                asked["stm"] = config["filter_stm"] = rng.choice([-1, 1])
            if rng.random() < 0.45:
                usable = {k: v for k, v in names[0][2].items() if v.dtype.kind == "f" or k == "bf" or v.dtype == np.int16}
                text, tree = condition(rng, usable)
                config["filter_condition"] = text
                asked["condition"] = [tree]
        if family == "raw":
            asked["level"] = config["value_td_level"] = rng.randrange(layout["levels"])
        if family == "processed":
            if layout["planes"] > 2 and rng.random() < 0.5:
                asked["bchannels"] = config["board_input_channels"] = rng.sample(range(layout["planes"]), 2)
            if layout["gf"] > 1:
                config["stm_input_channel"] = 0 if asked["stm"] else rng.randrange(layout["gf"])
                asked["schannel"] = [config["stm_input_channel"]]
            if layout["values"] > 3 and rng.random() < 0.7:
                asked["vchannels"] = config["value_target_channels"] = rng.sample(range(layout["values"]), 3)
        if kind.startswith("batched"):
            config.update(pin_memory=False, prefetch_threads=rng.choice([0, 0, 1, 2]))
        described = []
        for head, columns, stored, features in names:
            cols = {k: dict(r=v.ndim, v=fractions(v)) for k, v in {**({} if family == "processed" else {k: v for k, v in stored.items() if text and k in text}), **columns}.items()}
            described.append(dict(head, columns=cols, features=[] if features is None else features.astype(int).tolist()))
        rows, problem = [], ""
        try:
            if not kind.startswith(("iterative", "batched")) and rng.random() < 0.5:
                data = build_dataset(kind, files, runtime_context=ds.context(1, mode="train"), rules=["freestyle"], boardsizes=sizes, shuffle=False, **config)
                rows = [seen(data[i], False) for i in range(len(data))]
            else:
                data = build_dataset(kind, files, runtime_context=ds.context(batch, mode="validate"), rules=["freestyle"], boardsizes=sizes, shuffle=False, **config)
                for envelope in data:
                    real = np.asarray(envelope.is_real) if envelope.is_real is not None else np.ones(len(envelope.data["board_input"]), bool)
                    rows += [seen({k: v[i] for k, v in envelope.data.items()}, family == "sparse") for i in np.flatnonzero(real)]
        except Exception as error:
            problem = str(error)
            check.note("data sets that refused", 1)
        cases.append(dict(files=described, config=asked, rows=rows, refused=bool(problem), features=family == "sparse"))
        notes.append(f"{kind} batch={batch} sizes={sizes} {config} {problem[:150]}")

    def on_error(item):
        case = cases[item["case"] - 1]
        check.violation(item["clause"], f"{notes[item['case'] - 1]}: row {item['step']}", dict(what=notes[item["case"] - 1], case=case, row=item["step"]))
    traces.validate(check, "NpzTrace", cases, label="npz", on_error=on_error, lengths=[len(c["rows"]) + 2 for c in cases], timeout=850)
    check.note("rows", sum(len(c["rows"]) for c in cases))
    check.sample(dict(what=notes[2], rows=cases[2]["rows"][:1]))


report.main(PID, body)
