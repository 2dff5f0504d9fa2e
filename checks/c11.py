import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = {"macro"}


def run():
    play("C11", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("plain", dict(verdicts=["calm", "soft"], messages=(2, 4), noreply=0), 14, 240, 20),
             ("requested", dict(symlist=1, messages=(2, 3), noreply=0), 10, 200, 20),
             ("opting out", dict(symlist=.5, steps=1, messages=(2, 3)), 8, 160, 20),
             ("aborted", dict(symlist=.5, messages=(2, 5), stop=.4, no_abort=.2, abort_after=.3), 8, 160, 20),
             ("many sessions", dict(conc=24, delay=.005, messages=(1, 2)), 6, 100, 30),
             ("conditions", dict(conds=.5, messages=(2, 3), stop=.2), 4, 60, 20),
         ])


main(run)
