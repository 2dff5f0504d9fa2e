import asyncio, concurrent.futures, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *
import isolate

KINDS = ALL


class Log:
    """what a round counted, in a form that can be sent to the parent process"""

    def __init__(self):
        self.counts, self.cases = {}, []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def case(self, key, sample):
        self.cases.append((key, sample))


def one(seed, pairs):
    log = Log()
    for attempt in range(2):
        try:
            p = asyncio.run(isolate.play(log, seed, pairs))
        except (OSError, RuntimeError) as e:
            p = [("harness", repr(e))]
        # a stalled machine shows as a missing reply: once more before it counts
        if not p or any(k not in ("no-reply", "harness") for k, _ in p):
            break
    return seed, p, log.counts, log.cases


def pasts(c):
    import build
    build.build("asan")
    with concurrent.futures.ProcessPoolExecutor(7) as ex:
        for seed, p, counts, cases in ex.map(one, ["C12/%d/past/%d" % (c.seed, i) for i in range(c.n(14, 200))], [60] * c.n(14, 200)):
            for k, v in counts.items():
                c.count(k, v)
            for k, s in cases:
                c.case(k, s)
            for k, t in p:
                c.violation(k, t, dict(seed=seed))


def run():
    play("C12", "distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's connections; "
         "distinct (past of the session, outcome of the compared message)",
         KINDS, [
             ("many sessions", dict(conc=30, delay=.005, verdicts=["mixed", "calm"]), 10, 160, 40),
             ("many messages", dict(messages=(3, 7), verdicts=["soft", "mixed"], noreply=0), 10, 200, 14),
             ("aborts", dict(messages=(3, 6), stop=.5, no_abort=.3, abort_after=.3, noreply=0), 10, 200, 14),
             ("everything logged", faulty(rogue=.2, cut=.2, faults=.1, env={"MILTER_LOG_LEVEL": "all"}), 3, 30, 12),
             ("neighbours", faulty(rogue=.2, cut=.2, end=["quit", "quit", "hostile", "close", "partial"], conc=14, evaluation=.1), 6, 100, 20),
             ("conditions", dict(conds=.5, stop=.3, messages=(2, 5), noreply=0), 5, 80, 16),
             ("failing", faulty(faults=.04, messages=(2, 4), children=(2, 3)), 5, 60, 12),
         ], after=pasts)


main(run)
