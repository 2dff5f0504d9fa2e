import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *

KINDS = {"net-headers", "net-headers-order", "net-body", "net-sender", "net-quarantine", "net-rcpts", "mod-outside-eom", "bad-packet"}


def run():
    play("C08", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections",
         KINDS, [
             ("chain", dict(verdicts=["calm"], mods=1, children=(1, 4), noreply=0), 20, 320, 20),
             ("many messages", dict(verdicts=["calm", "soft"], mods=.8, messages=(2, 5), noreply=0), 8, 160, 14),
             ("headers", dict(verdicts=["calm"], mods=1, mod_kinds=["add", "insert", "change", "delete"], children=(2, 4), noreply=0), 10, 200, 20),
             ("bodies", dict(verdicts=["calm"], mods=1, mod_kinds=["body"], children=(2, 3), big=.3, noreply=0), 4, 60, 16),
             ("big bodies", dict(verdicts=["calm"], mods=1, spool=.4, bigrepl=.2, messages=(1, 2), children=(2, 3)), 3, 40, 6),
             ("mixed", dict(verdicts=["mixed", "soft"], mods=1, delay=.003), 6, 120, 20),
         ])


main(run)
