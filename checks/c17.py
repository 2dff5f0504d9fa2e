"""C17: programs on the server library against scripted milters; commands on the wire and notifications with their times are
compared with the generated session."""
import multiprocessing, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import serverlib
import build as B

RULE = ("seed -> (negotiation, commands with their arguments and macros, when they are issued, answers of the milter, modifications, "
        "timeouts of the four stages, a fault: silence, slowness, a closed connection, an invalid or unexpected reply, nobody listening, "
        "an unreachable or deaf milter) x event loop x concurrent sessions x fragmentation")


def job(a):
    try:
        return a, serverlib.round_(*a)
    except Exception:
        return a, dict(error=traceback.format_exc())


def run():
    c = Check("C17", RULE)
    c.assumptions += ["a timeout has to fire within 1 s after its time", "sessions that measure time aren't judged on a machine that is "
                      "busy for more than 0.25 s at a time"]
    B.build("asan")
    jobs = [("C17/%d/%d" % (c.seed, i), ("glib", "libev")[i % 2], c.n(60, 150), c.rng(i).choice([1, 4, 8])) for i in range(c.n(14, 200))]
    kinds = set()
    with multiprocessing.get_context("fork").Pool(5) as pool:
        for a, r in pool.imap_unordered(job, jobs):
            if "error" in r:
                c.violation("harness", r["error"], a)
                continue
            for k in sorted(r["kinds"]):
                c.case((k, a[1]))
            kinds |= r["kinds"]
            for k in ("sessions", "commands", "notifications", "timeouts"):
                c.count(k, r[k])
            for key, text in r["problems"]:
                c.violation(key, "%s [%r]" % (text, a), a)
    c.extra["kinds"] = len(kinds)
    c.samples = sorted(kinds)[:40]
    c.finish()


if __name__ == "__main__":
    main(run)
