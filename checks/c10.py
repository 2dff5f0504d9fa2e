import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = {"neg-offer", "neg-not-offered", "neg-action", "neg-step", "neg-noreply", "neg-macros", "neg-reply", "env-view", "msg-view", "unasked", "extra-event", "no-reply", "unsolicited", "macro"}


def run():
    play("C10", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("offers", dict(lowproto=.5, steps=1, symlist=.7, evaluation=.2, noreply=.5, messages=(1, 1), mods=.3), 20, 320, 26),
             ("skipping", dict(lowproto=.1, steps=1, step_prob=.6, noreply=.2, messages=(1, 2)), 8, 160, 20),
             ("many children", dict(children=(3, 6), steps=.8, symlist=.7, evaluation=.3, noreply=.4, messages=(1, 1)), 6, 120, 16),
             ("no reply", dict(steps=1, noreply=.9, lowproto=0, delay=.003), 8, 160, 20),
             ("failing", faulty(neg_faults=.4), 4, 60, 14),
         ])


main(run)
