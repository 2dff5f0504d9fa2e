"""C16: real milters on the smfi_* API against a scripted MTA; callbacks, results of smfi_* calls, private data and replies are
compared with the generated session."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import main
import clientlib
from c15 import play

RULE = ("seed -> (registered callbacks and flags, with or without xxfi_negotiate, sessions, messages, macros, answers of every callback: "
        "return value, smfi_setreply / smfi_setmlreply, valid and invalid modification calls, smfi_getsymval) x event loop x concurrent "
        "sessions x fragmentation")


def jobs(c):
    out = []
    for i in range(c.n(14, 200)):
        r = c.rng(i)
        opt = clientlib.smfi_options(r, r.choice(["glib", "libev"]))
        out.append(("C16/%d/%d" % (c.seed, i), "libmilter", opt, c.n(60, 150), r.choice([1, 4, 8, 12])))
    return out


def run():
    play("C16", jobs, RULE, ["the SMFIF flags of a filter without xxfi_negotiate are offered by the MTA",
                             "an MTA reads what is sent before it goes on"])


if __name__ == "__main__":
    main(run)
