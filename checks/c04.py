import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = {"no-reply", "unsolicited", "closed", "bad-packet", "mod-outside-eom", "not-closed", "early-reply", "connect"}


def run():
    play("C04", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("plain", dict(), 14, 240, 20),
             ("delays", dict(delay=.01), 6, 120, 20),
             ("fragments", dict(frag=1, progress=.5, delay=.004, end=["quit", "close", "partial"], abort_after=.2), 6, 120, 20),
             ("batches", dict(conc=24, batch=.4, no_abort=.2), 6, 120, 20),
             ("many children", dict(children=(4, 7), noreply=0), 4, 80, 12),
             ("no reply", dict(noreply=.6, steps=.9), 5, 120, 20),
             ("none left", faulty(absent=.5, neg_faults=.3, faults=.01), 5, 80, 7),
             ("conditions", dict(conds=.7, noreply=0), 4, 60, 20),
             ("faults", faulty(faults=.05), 5, 60, 14),
         ])


main(run)
