"""C15: real milters on the client library against a scripted MTA; callbacks, results of requests and replies are compared
with the generated session."""
import multiprocessing, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import clientlib
import build as B

RULE = ("seed -> (negotiation, sessions, messages, macros, answers of every callback: verdict, delay, custom reply, valid and invalid "
        "modification requests, shelf values) x event loop x packet buffer size x concurrent sessions x fragmentation")


def job(a):
    seed, mode, opt, n, par = a
    try:
        return a, clientlib.round_(seed, mode, opt, n, par)
    except Exception:
        return a, dict(error=traceback.format_exc())


def play(prop, jobs, rule, assumptions=(), workers=5):
    c = Check(prop, rule)
    c.assumptions += list(assumptions)
    B.build("asan")
    kinds = set()
    with multiprocessing.get_context("fork").Pool(workers) as pool:
        for a, r in pool.imap_unordered(job, jobs(c)):
            if "error" in r:
                c.violation("harness", r["error"], a)
                continue
            for k in sorted(r["kinds"]):
                c.case((k, a[2]["loop"], a[2]["buffer"]))
            kinds |= r["kinds"]
            for k in ("sessions", "replies", "mods", "callbacks"):
                c.count(k, r[k])
            for key, text in r["problems"]:
                c.violation(key, "%s [%r]" % (text, a), a)
    c.extra["kinds"] = len(kinds)
    c.samples = sorted(kinds)[:40]
    c.finish()


def jobs(c):
    out = []
    for i in range(c.n(3, 40)):
        for loop in ("glib", "libev"):
            for buf in (0, 50, 4096, 1000000):
                r = c.rng(i, loop, buf)
                out.append(("C15/%d/%d/%s/%d" % (c.seed, i, loop, buf), "client", dict(loop=loop, buffer=buf),
                            c.n(70, 150), r.choice([1, 4, 8, 12])))
    return out


def run():
    play("C15", jobs, RULE, ["delays are at most 20 ms (5 s for a message that the MTA gives up)",
                             "an MTA reads what is sent before it goes on"])


if __name__ == "__main__":
    main(run)
