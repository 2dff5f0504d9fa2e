import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = {"applicable", "not-connected", "env-view", "extra-event", "msg-view", "unasked", "macro", "no-reply", "verdict", "stray", "abort",
         "early-reply"}


def run():
    play("C14", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("conditions", dict(conds=.7, children=(1, 4), noreply=0), 14, 240, 20),
             ("always", dict(conds=.7, stop_prob=1, children=(2, 4), noreply=0), 8, 160, 20),
             ("disabled", dict(disabled=.5, children=(2, 5), noreply=0), 8, 120, 16),
             ("many messages", dict(conds=.6, messages=(3, 5), stop=.3, no_abort=.1, noreply=0), 8, 160, 14),
             ("mixed", dict(conds=.6, verdicts=["mixed"], children=(2, 4), max_rcpts=5), 8, 160, 20),
             ("delays", dict(conds=.6, delay=.005, noreply=.4, steps=.7), 4, 80, 20),
         ])


main(run)
