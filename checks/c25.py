"""C25: more connections than max_connections against a real milter-manager, with one process or workers.

Every session is observed from outside: when its negotiation was answered, which process served it, how long each reply
took, when it ended.  An offline checker computes per process how many sessions were in progress at each moment."""
import asyncio, os, random, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import life, manager
from milterproto import *
import milterproto as P

RULE = ("seed -> (max_connections, workers, back end, suspend time) x arrival times, session lengths and ways to end; "
        "sweep over the recorded session intervals per serving process")


async def dirty(spec, rng, hold):
    """a connection that takes a place without being a proper session -> (start, end)"""
    t = time.time()
    try:
        r, w = await life.connect(spec)
    except OSError:
        return
    k = rng.randrange(4)
    try:
        if k == 1:
            w.write(P.c_negotiate(6, A_ALL, P_ALL)[:rng.randint(1, 12)])
        elif k == 2:
            w.write(P.c_negotiate(6, A_ALL, P_ALL))
            await asyncio.wait_for(r.read(100), 60)
            w.write(P.c_connect("dirty", "4", 25, "192.0.2.1"))
        elif k == 3:
            w.write(rng.randbytes(40))
        await asyncio.sleep(hold)
        if k == 2 and rng.random() < .5:
            w.transport.abort()
    except (OSError, asyncio.TimeoutError):
        pass
    finally:
        w.close()


async def play(ck, seed, label):
    rng = random.Random(seed)
    workers = {"single": 0, "workers": rng.choice([1, 2, 3])}[label.split("-")[0]]
    k = rng.choice([1, 1, 2, 3, 5])
    slow = label.endswith("latency")
    suspend = 6 if slow else 1
    places = k * max(workers, 1)
    waves = 2 if slow else rng.choice([2, 3, 4])
    backend = rng.choice(["glib", "libev"])
    pending = rng.choice([0, 0, 1, 2, 8])
    m = manager.Manager()
    child = life.Child(m.child_sock("c1"))
    await child.start()
    m.write_config('manager.max_connections = %d\nmanager.suspend_time_on_unacceptable = %d\nmanager.n_workers = %d\n'
                   'manager.max_pending_finished_sessions = %d\nmanager.event_loop_backend = "%s"\n'
                   'define_milter("c1") do |milter|\n  milter.connection_spec = "unix:%s"\nend\n' % (k, suspend, workers, pending, backend, child.path))
    what = "max_connections=%d n_workers=%d %s suspend=%d pending=%d seed=%r" % (k, workers, backend, suspend, pending, seed)
    problems = []
    lag = [0.0]

    async def lagmeter():
        while True:
            t = time.time()
            await asyncio.sleep(.05)
            lag[0] = max(lag[0], time.time() - t - .05)
    lt = asyncio.ensure_future(lagmeter())
    try:
        m.start()
        n = places * waves if not slow else places + k
        spec = ("unix", m.sock)
        out = []

        async def one(i):
            await asyncio.sleep(rng.random() * (.05 if rng.random() < .5 else .6))
            if not slow and rng.random() < .2:
                return await dirty(spec, rng, rng.choice([0, .1, .8]))
            think = rng.choice([0, .01, .05]) if not slow else .25
            s = await life.session(spec, "t%d" % i, think=think, wait=120, messages=rng.choice([1, 1, 2]), quit=rng.random() < .8)
            out.append(s)
        await asyncio.gather(*[one(i) for i in range(n)])
        # the limit must not have broken anything: one more session
        s = await life.session(spec, "last", wait=60)
        out.append(s)
        if not m.alive():
            problems.append(("died", "milter-manager ended with %r (%s)\n%s" % (m.proc.returncode, what, m.errors()[-2000:])))
        for s in out:
            if s["error"]:
                problems.append(("unserved", "session %s: %s (%s)" % (s["tok"], s["error"], what)))
        ev = {}
        for s in out:
            pid = (child.sessions.get(s["tok"]) or [None])[0]
            if s["served"] is None or pid is None:
                continue
            ev.setdefault(pid, []).extend([(s["served"], 1, s["tok"]), (s.get("last", s["end"]), -1, s["tok"])])
        if len(ev) > max(workers, 1):
            problems.append(("processes", "%d processes served sessions (%s)" % (len(ev), what)))
        peak = reached = 0
        for pid, l in ev.items():
            cur, top, active = 0, 0, set()
            for t, d, tok in sorted(l, key=lambda x: (x[0], x[1])):
                cur += d
                (active.add if d > 0 else active.discard)(tok)
                peak, top = max(peak, cur), max(top, cur)
                if cur > k:
                    problems.append(("limit", "process %d had %d sessions in progress at once: %r (%s)" % (pid, cur, sorted(active), what)))
                    break
            reached += top == k
        waited = sum(1 for s in out if s["served"] and s["served"] - s["start"] > suspend * .5)
        ck.count("sessions", len(out))
        ck.count("sessions_that_waited_for_a_place", waited)
        ck.count("processes_that_reached_the_limit", reached)
        ck.case((k, workers, backend, pending, peak, label), {"max": k, "workers": workers, "peak": peak, "waited": waited})
        if slow:
            # nobody else was using the manager: a reply within a session in progress that takes most of the suspend time
            # means that the process does not serve anything while the limit is reached
            lat = max((l for s in out for nm, _, l in s["replies"] if nm != "negotiate"), default=0)
            ck.count("latency_rounds")
            if lat > suspend * .6:
                problems.append(("stalled", "a reply within a session in progress took %.1f s while the limit was reached (%s)" % (lat, what)))
        for key, t in manager.diagnostics(m.errors()):
            problems.insert(0, (key, t + "\n" + what))
    except (OSError, RuntimeError) as e:
        problems.append(("died", "%r (%s)" % (e, what)))
    finally:
        lt.cancel()
        await child.stop()
        m.cleanup()
    return problems, lag[0]


def run():
    ck = Check("C25", RULE)
    ck.assumptions += ["a session counts as in progress from the answer to its negotiation until its client sends QUIT or closes",
                       "the limit applies to each process; rounds during which this machine was stalled are repeated before their timing counts"]

    async def all_rounds():
        sem = asyncio.Semaphore(12)

        async def one(label, i):
            async with sem:
                p, lag = await play(ck, ck.rng(label, i).random(), label)
            if p and (lag > 1 or all(k in ("unserved", "stalled") for k, _ in p)):
                async with sem:
                    p2, lag = await play(ck, ck.rng(label, i).random(), label)
                ck.count("repeated")
                p = [x for x in p if x[0] not in ("unserved", "stalled")] + p2
                if lag > 2:
                    p = [x for x in p if x[0] not in ("unserved", "stalled")]
            for k, t in p:
                ck.violation(k, t)
        jobs = []
        for label, q, th in (("single", 14, 120), ("workers", 14, 120), ("single-latency", 5, 30), ("workers-latency", 5, 30)):
            jobs += [one(label, i) for i in range(ck.n(q, th))]
        await asyncio.gather(*jobs)
    asyncio.run(all_rounds())
    return ck.finish()


main(run)
