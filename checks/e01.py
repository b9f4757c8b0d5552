"""E01: exported files (Export.tla)."""
import json
import os
import shutil

import lz4.frame
import numpy as np

from vlib import ds, env, exportlab, report, tlc, traces

PID = "E01"
EXT = {"txt": "txt", "bin": "bin", "bin-noheader": "bin", "bin-lz4": "bin.lz4", "bin-lz4-noheader": "bin.lz4"}
RULES = ["freestyle", "standard", "renju"]


def model(check):
    for constants in [dict(Chunks=3, MaxExports=4, Direct=False)] + ([dict(Chunks=6, MaxExports=8, Direct=False)] if check.thorough else []):
        result = tlc.run(check.tmp, "Export", constants=constants, invariants=["Whole", "Kept", "Own"], workers=4)
        check.tlc(result, f"Export {constants}")
    result = tlc.run(check.tmp, "Export", constants=dict(Chunks=3, MaxExports=2, Direct=True), invariants=["Whole", "Kept", "Own"], workers=1)
    if result.ok:
        raise RuntimeError("Export.tla does not see a file written in place")


def rules(rng, args, fields):
    kind = rng.choice(["rule", "rule_list", "rules", "rules", "none" if rng.random() < 0.4 else "rule"])
    bad = rng.random() < 0.1
    if kind == "rule":
        v = ["gomoku" if bad else rng.choice(RULES)]
        args["rule"] = v[0]
    elif kind != "none":
        v = rng.sample(RULES, rng.randint(1, 3))
        if bad:
            v = rng.choice([[], v + ["Renju"], ["freestyle standard"]])
        args[kind] = list(v)
    if kind != "none":
        fields[kind] = dict(set=True, v=v)


def sizes(rng, args, fields):
    kind = rng.choice(["board_size", "range", "range", "board_size_list", "boardsizes", "none"])
    bad = rng.random() < 0.1
    if kind == "board_size":
        v = [rng.choice([0, 33, -1]) if bad else rng.randint(1, 32)]
        args["board_size"] = v[0]
    elif kind == "range":
        lo = rng.randint(1, 32)
        hi = rng.randint(lo, 33 if bad else 32)
        lo = rng.choice([0, -2]) if bad and hi <= 32 else lo
        v = [lo, hi]
        args["min_board_size"], args["max_board_size"] = lo, hi
    elif kind != "none":
        v = [rng.randint(1, 32) for _ in range(rng.randint(1, 8))]
        args[kind] = list(v)
        if bad:
            if rng.random() < 0.5:
                args[kind].append("15")
                v = v + [-1]
            else:
                args[kind].append(0)
                v = v + [0]
    if kind != "none":
        fields[kind] = dict(set=True, v=v)


def weights_case(check, rng, k):
    import torch
    root = os.path.join(check.tmp, f"e{k}")
    run = os.path.join(root, "run")
    os.makedirs(os.path.join(run, "ckpts"))
    width = rng.randint(12, 40)
    fields = {n: dict(set=False, v=[]) for n in ("rule", "rule_list", "rules", "board_size", "range", "board_size_list", "boardsizes")}
    args = {}
    rules(rng, args, fields)
    sizes(rng, args, fields)
    form = rng.choice(list(EXT))
    tag, tag2 = rng.sample(["a", "b7", "x"], 2)
    scale, scale2 = rng.randint(1, 9), rng.randint(1, 9)
    arch = rng.choice([rng.getrandbits(32), rng.getrandbits(44), 0xFFFFFFFF, 0, 1])
    margs = dict(width=width, scale=scale, tag=tag, arch=arch)
    override = rng.random() < 0.3
    over = dict(scale=scale2, tag=tag2) if override else {}
    if override:
        scale = scale2
    # the checkpoints
    files, made = [], {}
    iters = rng.sample([1, 5, 9, 10, 80, 99, 100, 1000, 99999999, 100000000, 123456789], rng.randint(1, 5))
    for it in iters:
        where = rng.choice(["ckpts", "ckpts", "root"])
        what = rng.choice(["good"] * 6 + ["state", "tmp", "other"])
        ext = rng.choice([".pth", ".pt"])
        stem = f"ckpt_verifexp_{tag}_{it:08d}" if rng.random() < 0.8 else f"ckpt_verifexp_{tag}_{it}"
        name = {"good": stem + ext, "state": f"state_verifexp_{tag}_{it:08d}{ext}", "tmp": stem + ext + ".tmp",
                "other": f"ckpt_zz_{it:08d}{ext}"}[what]
        ident = len(files) + 1
        path = os.path.join(run, "ckpts" if where == "ckpts" else "", name)
        if os.path.exists(path):
            continue
        w = torch.tensor([float(exportlab.weight(ident, j + 1)) for j in range(width)])
        torch.save({"model": {"w": w}, "iteration": str(it)}, path)
        made[ident] = path
        files.append(dict(where=where, it=it, id=ident, match=what == "good"))
    explicit = 0
    if rng.random() < 0.4:
        explicit = rng.choice(list(made))
    matching = [f for f in files if f["match"]]
    pool = [f for f in matching if f["where"] == "ckpts"] or matching
    chosen = explicit or (max(pool, key=lambda f: f["it"])["id"] if pool else 0)
    fault = rng.choice(["", "", "", "serialize", "limit", "ckpt"])
    if fault == "ckpt":
        if not chosen:
            fault = ""
        else:
            with open(made[chosen], "wb") as stream:
                stream.write(b"no checkpoint")
    known = rng.random() < 0.93
    mtype = "verif_exp" if known else "verif_exp_plain"
    description = rng.choice(["", "test network", "网络 é – ", "x" * rng.randint(1, 300)])
    headless = rng.random() < 0.2
    if description:
        args["description"] = description
    if headless:
        args["headless"] = True
    ending = EXT[form]
    explicit_out = rng.random() < 0.6 or not chosen
    if explicit_out:
        output = os.path.join(root, rng.choice(["out.bin", "weights", "m.bin.lz4"]))
    else:
        d, f = os.path.split(made[chosen])
        output = os.path.join(d, os.path.splitext(f)[0] + "_export." + ending)
    old = rng.random() < 0.6
    if old:
        with open(output, "wb") as stream:
            stream.write(bytes(rng.randrange(256) for _ in range(rng.randint(0, 600))))
    if rng.random() < 0.4:
        with open(output + ".tmp", "wb") as stream:
            stream.write(bytes(rng.randrange(256) for _ in range(800)))
    listing = {os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs}
    call = dict(checkpoint=made[explicit] if explicit else None, output=output if explicit_out else None,
                rundir=run if not explicit or rng.random() < 0.3 else None, export_type=form, model_type=mtype, model_args=margs,
                export_model_args=over, export_args=args, use_cpu=True)
    cli = rng.random() < 0.25
    note = dict(call, fault=fault, files=files, cli=cli)
    note = json.loads(json.dumps(note))
    at = rng.randint(0, width - 1) // exportlab.chunk * exportlab.chunk if fault == "serialize" else None
    if cli:
        config = os.path.join(root, "config.yaml")
        listing.add(config)
        with open(config, "w") as stream:
            json.dump(dict(model_type=mtype, model_args=margs, batch_size=7, kd_alpha=0.5, unknown_key="x"), stream)
        given = ["--config", config, "--export_type", form, "--export_args", json.dumps(args), "--use_cpu"]
        for flag, value in (("--checkpoint", call["checkpoint"]), ("--output", call["output"]), ("--rundir", call["rundir"])):
            if value is not None:
                given += [flag, value]
        if over:
            given += ["--export_model_args", json.dumps(over)]
        call = given
    outcome, seen, error = exportlab.run(call, output, fault=at, limit=rng.randint(0, 9) if fault == "limit" else None, cli=cli)
    first, last = seen[0], seen[-1]
    final = last
    steps = []
    for content in seen:
        steps.append("before" if content == first else "new" if outcome == "ok" and content == final and content is not None else "other")
    if outcome == "ok" and last is not None and last == first:
        steps[-1] = "new"
    if len(steps) == 1:
        steps = steps * 2 if steps[0] == "before" else ["before", "new"]
    # nothing else may be created than the output and its temporary file
    extra = {os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs} - listing - {output}
    place = not {p for p in extra if not p.endswith(".tmp")}
    content, lz4_bad = b"", False
    if outcome == "ok" and final is not None:
        content = final
        if "lz4" in form:
            try:
                content = lz4.frame.decompress(final)
            except RuntimeError:
                content = b"?"
    shutil.rmtree(root)
    shown = f"model=verifexp_{tag2 if override else tag}; {description}"
    case = dict(kind="weights", args=fields, files=files, explicit=explicit, scale=scale, width=width, text=form == "txt",
                header="noheader" not in form and not headless, known=known, fault=fault, arch=list(arch.to_bytes(8, "little")),
                steps=steps, outcome=outcome, place=place, file=list(content), description=list(shown.encode()))
    return case, dict(note, outcome=outcome, error=error, steps=steps)


def version_case(rng):
    import export
    io = rng.choice([rng.randint(1, 32767), 1, 32767, 0, 32768, rng.randint(32768, 70000), -3])
    rs = rng.sample(RULES, rng.randint(1, 3))
    ns = rng.sample(range(1, 33), rng.randint(0, 32))
    case = dict(kind="version", io=io, rules=rs, sizes=ns, refused=False, bytes=[], parsed=dict(io=0, rules=[], sizes=[]))
    try:
        v = export.make_onnx_model_version(io, list(rs), list(ns))
        case["bytes"] = list(v.to_bytes(8, "big", signed=True))
        a, b, c = export.parse_onnx_model_version(v)
        case["parsed"] = dict(io=a, rules=list(b), sizes=list(c))
    except Exception:
        case["refused"] = True
    return case, dict(io=io, rules=rs, sizes=ns)


JIT = [("verif_exp", dict(width=8)), ("resnet", dict(num_blocks=1, dim_feature=8)), ("mobilenetv2", dict(num_blocks=1, dim_feature=8)), ("mix9s", dict(dim_middle=32, dim_feature=32, dim_policy=16, dim_value=16))]


def jit_case(check, rng, k, fixture):
    import torch
    from model import build_model
    mtype, margs = JIT[k % len(JIT)]
    root = os.path.join(check.tmp, f"j{k}")
    os.makedirs(root)
    torch.manual_seed(rng.randrange(1000))
    net = build_model(mtype, **margs).eval()
    with torch.no_grad():
        for p in net.parameters():
            p.add_(torch.randn_like(p) * 0.05)
    torch.save({"model": net.state_dict()}, root + "/ckpt_m_00000001.pth")
    softmax = rng.random() < 0.4
    out = root + "/m.pt"
    note = dict(model=mtype, args=margs, softmax=softmax)
    outcome, _, error = exportlab.run(dict(
        checkpoint=root + "/ckpt_m_00000001.pth", output=out, rundir=None, export_type="torch-jit", model_type=mtype, model_args=dict(margs),
        export_model_args={}, export_args=dict(apply_policy_softmax=True) if softmax else {}, use_cpu=True, datas=list(fixture.paths),
        dataset_type=fixture.dataset_type, dataset_args=dict(fixture.kwargs), dataloader_args={}, train_datas=None), out)
    case = dict(kind="jit", failed="" if outcome == "ok" else error, got=[], want=[])
    if outcome == "ok":
        traced = torch.jit.load(out)
        want, got = [], []
        for n in (1, 3):
            board = (torch.rand(n, 2, 15, 15) < 0.3).to(torch.int8)
            board[:, 1] &= 1 - board[:, 0]
            side = torch.randint(0, 2, (n, 1)).float() * 2 - 1
            with torch.no_grad():
                plain = net(dict(board_input=board, stm_input=side, board_size=torch.full((n, 2), 15)))
                value, policy = plain["value"], plain["policy"]
                policy = policy.reshape(n, 15, 15)
                if softmax:
                    policy = torch.softmax(policy.flatten(1), 1).reshape(n, 15, 15)
                a, b = traced(board, side)
            shape_ok = tuple(a.shape) == (n, 3) and tuple(b.shape) == (n, 15, 15)
            want += [round(float(x) * 10000) for x in [*value.flatten(), *policy.flatten()]]
            got += [round(float(x) * 10000) for x in [*a.flatten(), *b.flatten()]] if shape_ok else []
        case["want"], case["got"] = want, got
    shutil.rmtree(root)
    return case, dict(note, error=error)


def body(check):
    model(check)
    env.activate(check.tmp)
    exportlab.register()
    rng = check.rng
    cases, notes = [], []
    for k in range(2000 if check.thorough else 300):
        case, note = weights_case(check, rng, k)
        cases.append(case), notes.append(note)
        check.note(f"{case['outcome']} exports")
    for k in range(2000 if check.thorough else 200):
        case, note = version_case(rng)
        cases.append(case), notes.append(note)
    fixture = ds.npz_fixture(os.path.join(check.tmp, "npz"), rng, "iterative_processed_katago_numpy", [(15, 4)], fixed_side_input=False)
    for k in range(40 if check.thorough else 8):
        case, note = jit_case(check, rng, k, fixture)
        cases.append(case), notes.append(note)

    def on_error(item):
        note, case = notes[item["case"] - 1], cases[item["case"] - 1]
        check.violation(item["clause"], json.dumps(note, default=repr)[:900], dict(case=case, note=note))
    traces.validate(check, "ExportTrace", cases, label="exports", on_error=on_error,
                    lengths=[(len(c["steps"]) if c["kind"] == "weights" else 1) + 1 for c in cases])
    for note in notes[:2] + notes[-1:]:
        check.sample(note)


report.main(PID, body)
