"""T10: runs with vector quantisation resume exactly (Trainer.tla, Sidecar.tla)."""
import os
import random
import shutil

import torch

from vlib import dist, ds, env, report, traces, train, trainlab, vqlab

PID = "T10"


class Lab(train.Lab):
    model_type = "verif_vq"

    def plain(self, rec):
        return [True] * (len(rec["m"]) + 1)


def adjust(rng):
    def go(config, conf, name):
        board = 36 if name in ("katago", "katago-map", "packed") else 25
        step = config["batch_size"] * conf.accum * board
        # the codebook's inputs are complete somewhere inside the run
        config["model_args"] = dict(codes=rng.choice([4, 6]), rows=max(8, int(step * rng.choice([0.5, 1.0, 1.4, 2.0, 2.3, 2.6, 3.2]))))
        if rng.random() < 0.4:
            config["model_args"]["second"] = max(8, int(step * rng.choice([0.7, 1.6, 2.5, 9])))
        if rng.random() < 0.3:
            config["model_args"]["share"] = True
        config.pop("clip_grad_value", None)
        config["optim_type"], config["optim_args"] = rng.choice([("sgd", {}), ("adamw", {}), ("sgd-momentum", {})])
    return go


def campaign(check):
    rng = check.rng
    confs = trainlab.configs(rng, 14 if check.thorough else 6, accums=(1, 2, 1))
    for conf in confs:
        conf.keep = rng.choice([-1, 1, 2])
        if conf.temp > conf.total and conf.save > conf.total:
            conf.temp = 1
    found = trainlab.schedules(check, confs, faults=2)
    labs = trainlab.labs(check, confs, rng.sample(range(8), 8), check.tmp, make=Lab, adjust=adjust(rng))
    trainlab.campaign(check, PID, confs, found, labs, trainlab.spread(), 40 if check.thorough else 10)
    return labs


# ---- files that are not what the state says
def damage(rng, folder, kind):
    """Change the newest continuation file; returns whether there was one to change."""
    names = sorted(n for n in os.listdir(folder) if n.startswith("runtime_"))
    if not names:
        return False
    path = os.path.join(folder, names[-1])
    data = open(path, "rb").read()
    if kind == "gone":
        os.remove(path)
    elif kind == "short":
        open(path, "wb").write(data[:rng.randrange(len(data))])
    elif kind == "long":
        open(path, "ab").write(b"\0" * 64)
    elif kind == "flipped":
        at = rng.randrange(len(data))
        open(path, "wb").write(data[:at] + bytes([data[at] ^ (1 << rng.randrange(8))]) + data[at + 1:])
    elif kind == "older":
        if len(names) < 2:
            return False
        shutil.copyfile(os.path.join(folder, names[0]), path)
    elif kind in ("samples", "count", "rank", "where", "world", "number"):
        payload = torch.load(path, weights_only=True)
        states = [e["state"] for m in payload["models"].values() for e in m.values()]
        if kind in ("samples", "count"):
            held = [s for s in states if s["count"]]
            if not held:
                return False
            for s in held:
                if kind == "samples":
                    s["samples"] = s["samples"].flip(1).contiguous()
                else:
                    s["count"] -= 1
                    s["samples"] = s["samples"][:-1].contiguous()
        elif kind == "rank":
            payload["rank"] += 1
        elif kind == "world":
            payload["world_size"] += 1
        elif kind == "number":
            payload["iteration"] += 1
        elif kind == "where":
            payload["generation"] = payload["generation"][::-1]
        torch.save(payload, path)
    elif kind == "linked":
        away = path + ".away"
        os.rename(path, away)
        os.symlink(os.path.basename(away), path)
    elif kind == "renamed":
        os.rename(path, path.replace(names[-1].split("_")[2], "0" * 32))
    elif kind == "stray":
        shutil.copyfile(path, path.replace(names[-1].split("_")[2], "0" * 32))
        open(os.path.join(folder, f".runtime-tmp_0000001_{'1' * 32}_rank_0_77_{'2' * 32}.pt"), "wb").write(b"torn")
    return True


KINDS = ["none", "stray", "gone", "short", "long", "flipped", "flipped", "older", "samples", "count", "rank", "where", "world", "number", "linked", "renamed"]
HARMLESS = {"none", "stray"}


def listing(folder):
    out = {}
    for name in sorted(os.listdir(folder)):
        path = os.path.join(folder, name)
        out[name] = os.readlink(path) if os.path.islink(path) else open(path, "rb").read()
    return out


def sidecars(check, labs):
    rng = check.rng
    cases, raw = [], []
    for lab in labs:
        total, accum = lab.config["iterations"], lab.accum
        kept = dict(lab.config)
        lab.config.update(save_interval=1, temp_save_interval=1, state_save_interval=None, num_keep_states=-1)
        lab.ref["w"], ref = lab.ref["w"], lab.ref
        for kind in rng.sample(KINDS, len(KINDS) if check.thorough else 7) + ["none"]:
            at = rng.randint(2, total)
            shutil.rmtree(lab.root, ignore_errors=True)
            events = lab.session([dict(at="forward", it=at, micro=0, kind="kill")])
            folder = os.path.join(lab.root, "ckpts")
            if events[-1]["how"] != "killed" or not damage(rng, folder, kind):
                continue
            before = listing(folder)
            events = lab.session([])
            steps = {e["it"]: e["w"] for e in events if e["ev"] == "step"}
            case = dict(kind=kind, harmless=kind in HARMLESS, how=events[-1]["how"], started=any(e["ev"] == "micro" for e in events),
                        first=min(steps, default=0), at=at, total=total, steps=[steps.get(k, "") for k in range(1, total + 1)], want=ref["w"][1:total + 1],
                        untouched=listing(folder) == before)
            cases.append(case)
            raw.append(dict(kind=kind, at=at, source=lab.name, config=lab.config, message=events[-1]["message"]))
            check.note(f"resumed_{kind}" if case["how"] == "done" else f"refused_{kind}")
        shutil.rmtree(lab.root, ignore_errors=True)
        lab.config = kept
    judge(check, cases, raw, "sidecar")


# ---- several ranks, each with inputs of its own
def ranks(check):
    """Interrupted and resumed groups; some resume with a rank's file gone, damaged or another rank's."""
    rng = check.rng
    root = os.path.join(check.tmp, "ranks")
    src = [("map", ds.npz_fixture(os.path.join(root, "m"), rng, "processed_katago_numpy", [(5, 11), (5, 9)])),
           ("batched", ds.npz_fixture(os.path.join(root, "b"), rng, "batched_processed_katago_numpy", [(5, 12), (5, 10)])),
           ("stream", ds.npz_fixture(os.path.join(root, "s"), rng, "iterative_processed_katago_numpy", [(5, 9), (5, 13)]))]
    world, plans, jobs = 2, [], []
    for k in range(24 if check.thorough else 7):
        name, fixture = src[k % len(src)]
        total, accum = 4, rng.choice([1, 1, 2])
        step = 2 * accum * 25
        conf = dict(dataset_type=fixture.dataset_type, train_datas=list(fixture.paths), iterations=total, gradient_accumulation_steps=accum,
                    save_interval=rng.choice([1, 99]), temp_save_interval=1, val_interval=10**6, batch_size=4, random_seed=rng.randrange(1000),
                    num_keep_states=rng.choice([-1, 1, 2]), log_interval=1, show_interval=10**6, dataset_args=dict(fixture.kwargs),
                    model_type="verif_vq", optim_type=rng.choice(["sgd", "adamw"]), optim_args={}, learning_rate=0.05,
                    model_args=dict(codes=4, rows=int(step * 2 * rng.choice([1.3, 2.4, 2.7, 3.2]))))
        if rng.random() < 0.5:
            conf["model_args"]["second"] = int(step * 2 * rng.choice([1.7, 9]))
        kind = ["none", "none", "exchanged", "none", "gone", "flipped", "copied"][k % 7]
        base = dict(module="vlib.vqlab", run="run", config=conf, noise=1, root=os.path.join(root, f"run{k}"))
        at = rng.randint(2, total)
        fault = dict(rank=rng.randrange(world), at=rng.choice(["before", "fetch"]), it=at, micro=rng.randrange(accum), kind="error")
        jobs += [dict(base, rundir=base["root"] + "-ref", fresh=True, salt=2, faults=[]),
                 dict(base, rundir=base["root"], fresh=True, salt=3, faults=[fault]),
                 dict(base, rundir=base["root"], salt=4, faults=[], damage=kind, pick=rng.randrange(world), place=rng.random())]
        plans.append(dict(source=name, config=conf, kind=kind, at=at, fault=fault, total=total))
    found = dist.run(check, world, jobs)
    cases, notes = [], []
    for k, p in enumerate(plans):
        ref, first, last = found[3 * k:3 * k + 3]
        broken = [g for g in (ref, first, last) if isinstance(g, str) or any("raised" in r for r in g)]
        if broken or any(r["how"] != "done" for r in ref):
            what = broken[0] if broken else next(r["message"] for r in ref)
            check.violation("a run on several ranks got stuck or failed", str(what)[:600], p)
            continue
        if any(r["how"] != "error" for r in first):
            raise RuntimeError(f"the injected failure did not end the run: {first}")
        if not last[0]["damaged"]:
            continue
        for rank in range(world):
            want = {e["it"]: e["w"] for e in ref[rank]["events"]}
            steps = {e["it"]: e["w"] for e in last[rank]["events"]}
            cases.append(dict(kind=p["kind"], harmless=p["kind"] in HARMLESS, how=last[rank]["how"], started=bool(steps), first=min(steps, default=0),
                              at=p["at"], total=p["total"], steps=[steps.get(i, "") for i in range(1, p["total"] + 1)],
                              want=[want[i] for i in range(1, p["total"] + 1)], untouched=not any(w.startswith("ckpts") for w in last[rank]["writes"])))
            notes.append(dict(p, rank=rank, message=last[rank]["message"]))
        check.note(f"ranks_{'resumed' if last[0]['how'] == 'done' else 'refused'}_{p['kind']}")
    judge(check, cases, notes, "ranks")


def judge(check, cases, raw, label):
    answers = traces.evaluate(check, "Sidecar", cases, label=label)
    check.evaluations += len(cases)
    for answer, case, info in zip(answers, cases, raw):
        if answer:
            check.violation(answer, f"{answer}: {info['kind']} in iteration {info['at']} of {info['source']}: {info['message']}", replay=dict(info, **case), key=f"{answer} {info['kind']}")


def body(check):
    env.activate(check.tmp)
    vqlab.register()
    labs = campaign(check)
    sidecars(check, labs)
    ranks(check)


report.main(PID, body)
