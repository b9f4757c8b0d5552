"""T01: every optimizer step uses exactly the next batches of the schedule (Trainer.tla)."""
from vlib import env, report, trainlab

PID = "T01"


def body(check):
    env.activate(check.tmp)
    count = 16 if check.thorough else 8
    confs = trainlab.configs(check.rng, count, accums=(2, 1, 3, 2))
    for conf in confs[1::2]:
        conf.keep = 1
    found = trainlab.schedules(check, confs, faults=2)
    labs = trainlab.labs(check, confs, list(range(8)), check.tmp)
    trainlab.campaign(check, PID, confs, found, labs,
                      trainlab.spread(phases={"fetch", "grad", "opt", "commit", "val"}), 60 if check.thorough else 14)


report.main(PID, body)
