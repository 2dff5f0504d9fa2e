import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = {"verdict", "code", "early-reply", "no-reply", "env-view", "extra-event", "unasked", "unsolicited"}


def run():
    play("C05", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("mixed", dict(verdicts=["mixed"], children=(2, 4), mods=.2), 20, 320, 20),
             ("delays", dict(verdicts=["mixed"], children=(2, 4), delay=.01, mods=.2), 8, 160, 20),
             ("recipients", dict(verdicts=["mixed"], children=(2, 3), mods=.1, max_rcpts=6, messages=(2, 4)), 8, 160, 20),
             ("no reply", dict(verdicts=["mixed", "soft"], noreply=.5, steps=.8, mods=.2), 6, 100, 20),
             ("conditions", dict(verdicts=["mixed"], conds=.5, mods=.2), 4, 80, 20),
             ("fallback", faulty(verdicts=["mixed", "soft"], faults=.04, children=(2, 3)), 4, 60, 14),
         ])


main(run)
