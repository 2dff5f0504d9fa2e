import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = {"msg-view", "unasked", "env-view", "extra-event", "not-connected", "abort", "esmtp-args"}


def run():
    play("C07", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("plain", dict(verdicts=["calm", "soft"], noreply=0), 14, 240, 20),
             ("modifying chain", dict(verdicts=["calm"], children=(2, 4), mods=1, noreply=0), 12, 240, 20),
             ("big bodies", dict(verdicts=["calm", "soft"], spool=.5, big=.3, bigrepl=.15, messages=(1, 2), end=["quit"]), 5, 80, 8),
             ("chunks", dict(verdicts=["calm", "soft"], big=.3, chunk=[512, 4096, 65535], noreply=0), 6, 100, 16),
             ("opting out", dict(verdicts=["calm", "soft"], steps=.9, noreply=.5), 8, 160, 20),
             ("dropping out", dict(verdicts=["soft", "mixed"], children=(2, 4)), 6, 120, 20),
             ("fragments", dict(verdicts=["calm", "soft"], frag=1, delay=.004), 4, 100, 16),
             ("parameters", dict(args=.5, children=(1, 2), messages=(1, 2)), 1, 4, 10),
         ])


main(run)
