"""T03: non-finite steps stay out of checkpoints and validation (Trainer.tla)."""
from vlib import env, report, trainlab

PID = "T03"


def body(check):
    env.activate(check.tmp)
    rng = check.rng
    # the design without the check before a rescue save does break the property: the model can tell
    bad = trainlab.Config(3, 1, 3, 3, 0, 0, 1)
    if trainlab.breaks(check, bad, dict(DrainBeforeRescue=False)) != "NoBadFile":
        raise RuntimeError("the specification does not distinguish the unchecked rescue save")
    confs = trainlab.configs(rng, 16 if check.thorough else 8, accums=(1, 2, 1, 3))
    for conf in confs:
        if rng.random() < 0.5:
            conf.save = conf.temp = conf.total + 4
            conf.state = 0
    found = trainlab.schedules(check, confs, faults=2)
    labs = trainlab.labs(check, confs, [1, 0, 2, 3, 4, 5, 6, 7], check.tmp)
    trainlab.campaign(check, PID, confs, found, labs, trainlab.spread(kinds={"spoil"}), 60 if check.thorough else 16)


report.main(PID, body)
