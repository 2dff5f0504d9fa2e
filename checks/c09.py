import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = ALL


def run():
    play("C09", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("one of many", dict(evaluation=.5, children=(2, 4), verdicts=["mixed"], noreply=0), 16, 280, 20),
             ("modifying", dict(evaluation=.5, children=(2, 4), verdicts=["calm"], mods=1, noreply=0), 8, 160, 20),
             ("only evaluation", dict(evaluation=1, children=(1, 3), noreply=0), 8, 120, 20),
             ("failing", faulty(evaluation=.6, faults=.05, neg_faults=.15, children=(1, 3)), 8, 100, 12),
             ("absent", faulty(evaluation=.6, absent=.5), 4, 60, 6),
             ("everything logged", dict(evaluation=.5, children=(1, 3), mods=.5, env={"MILTER_LOG_LEVEL": "all"}), 3, 30, 12),
             ("no reply", dict(evaluation=.4, noreply=.6, steps=.8), 5, 100, 20),
         ])


main(run)
