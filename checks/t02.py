"""T02: a resumed run is the uninterrupted run (Trainer.tla)."""
from vlib import env, report, trainlab

PID = "T02"


def body(check):
    env.activate(check.tmp)
    rng = check.rng
    confs = trainlab.configs(rng, 24 if check.thorough else 10, accums=(1, 2, 1))
    for conf in confs:
        # states that later sessions start from
        conf.keep = rng.choice([-1, 1, 2])
        if conf.state and conf.temp > conf.total and conf.save > conf.total:
            conf.temp = 1
    found = trainlab.schedules(check, confs, faults=2)
    labs = trainlab.labs(check, confs, rng.sample(range(8), 8) + [0, 1], check.tmp)

    def select(rng, plans, per):
        # sessions that end after a state was written, so that something is resumed
        late = [p for p in plans if any(f["it"] >= 2 or f["kind"] == "interrupt" for f in p)]
        return trainlab.spread()(rng, late, per)
    trainlab.campaign(check, PID, confs, found, labs, select, 60 if check.thorough else 11)


report.main(PID, body)
