"""T04: crash-consistent checkpoints (Trainer.tla)."""
from vlib import env, report, trainlab

PID = "T04"


def body(check):
    env.activate(check.tmp)
    count = 16 if check.thorough else 8
    confs = trainlab.configs(check.rng, count, accums=(1, 1, 2))
    found = trainlab.schedules(check, confs, faults=2)
    labs = trainlab.labs(check, confs, list(range(8)), check.tmp)
    trainlab.campaign(check, PID, confs, found, labs,
                      trainlab.spread(phases={"model", "state", "prune", "between"}), 60 if check.thorough else 14)


report.main(PID, body)
