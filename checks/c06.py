import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = ALL


def run():
    play("C06", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("faults", faulty(faults=.05, end=["quit", "quit", "close"]), 10, 200, 14),
             ("one fault", faulty(faults=.01, verdicts=["calm", "soft"], children=(2, 3)), 8, 120, 18),
             ("only silent", faulty(faults=.03, fault_kinds=["silent"], verdicts=["calm", "soft"]), 4, 60, 10),
             ("negotiation", faulty(neg_faults=.4, faults=.01), 8, 120, 16),
             ("absent", faulty(absent=.5, neg_faults=.1), 5, 60, 6),
             ("rogue", faulty(rogue=.4, children=(2, 3)), 5, 100, 14),
             ("at end of message", faulty(faults=.4, fault_stages=["eom"], verdicts=["calm"], children=(2, 3)), 6, 80, 12),
             ("after skip", faulty(faults=.5, fault_stages=["eom"], fault_kinds=["close", "garbage", "silent"], verdicts=["skip"], big=.5, children=(1, 3)), 4, 60, 12),
             ("stopping", faulty(faults=.05, stop=.4), 4, 60, 12),
         ])


main(run)
