import asyncio, os, random, re, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from e2e import *
import scenario, manager, multiprocessing
from manager import Manager

KINDS = {"child-left-open", "fd-leak", "tmp-leak", "not-closed", "stray", "left-files", "stop"}
RULE = ("distinct sequences of (command, final reply) on the MTA connection and of (event, answer) on the children's "
        "connections; for the heap monitor, distinct batches of sessions")
# leaks of the Ruby interpreter and of GLib's type system are not milter-manager's
FOREIGN = re.compile(r"libruby|ruby_|\brb_|Init_|/ext/|load_module|g_type_|\bdl_|_dl_|g_quark|g_intern|g_once|g_param_spec|"
                     r"signal_new|g_private|g_thread_|setlocale|bindtextdomain|load_if_need")


def batch_growth(job):
    """the same sessions again and again in one process -> growth of the heap per batch"""
    seed, prof, n = job
    rng = random.Random(seed)
    m = Manager()
    try:
        cfg = scenario.config(rng, prof)
        m.write_config(scenario.config_text(m, cfg, prof))
        m.start()
        time.sleep(.3)
        plans = [scenario.plan(rng, i, cfg, prof) for i in range(n)]
        sizes, fds, sessions, kinds = [], [], 0, []

        def batch():
            st = dict(lag=0)
            w, ss = asyncio.run(scenario.run_sessions(m, cfg, plans, prof["conc"], st))
            return len(ss)
        for i in range(8):
            sessions += batch()
            # finished sessions are disposed of when the process is idle
            last, t = None, time.time()
            while time.time() - t < 6:
                time.sleep(.25)
                h = m.heap()
                if h == last and time.time() - t > .7:
                    break
                last = h
            if h is None:
                break
            sizes.append(h)
            fds.append(len(m.fds() or []))
        err = m.errors()
        m.stop()
        return dict(seed=seed, label=prof["label"], n=n, sizes=sizes, fds=fds, sessions=sessions,
                    diag=manager.diagnostics(err + m.errors()[len(err):]), plans=scenario.jsonable(plans[:2]), cfg=cfg)
    except Exception:
        return dict(seed=seed, error=traceback.format_exc() + m.errors()[-1500:])
    finally:
        m.cleanup()


def leak_round(job):
    """one batch, then LeakSanitizer at the end of the process"""
    seed, prof, n = job
    rng = random.Random(seed)
    m = Manager()
    try:
        cfg = scenario.config(rng, prof)
        m.write_config(scenario.config_text(m, cfg, prof))
        m.start(env={"ASAN_OPTIONS": "detect_leaks=1:exitcode=0:handle_segv=2", "LSAN_OPTIONS": "max_leaks=0:report_objects=0"})
        plans = [scenario.plan(rng, i, cfg, prof) for i in range(n)]
        w, ss = asyncio.run(scenario.run_sessions(m, cfg, plans, prof["conc"], dict(lag=0)))
        time.sleep(.5)
        m.stop(timeout=120)
        err = m.errors()
        leaks = []
        for b in re.findall(r"((?:Direct|Indirect) leak of .*?)\n\n", err, re.S):
            if b.startswith("Direct") and not FOREIGN.search(b):
                leaks.append(b)
        return dict(seed=seed, label=prof["label"], n=n, leaks=leaks, reported=err.count(" leak of "), sessions=len(ss))
    except Exception:
        return dict(seed=seed, error=traceback.format_exc() + m.errors()[-1500:])
    finally:
        m.cleanup()


T = QUICK_TIMEOUTS
GROW = [
    ("plain", dict(noreply=0, delay=0)),
    ("verdicts", dict(verdicts=["mixed"], noreply=.3)),
    ("aborts", dict(stop=.5, abort_after=.3, no_abort=.2, noreply=0)),
    ("ends", dict(end=["close", "partial", "quit"], noreply=0)),
    ("faults", dict(faults=.05, fault_kinds=["close", "garbage", "oop", "close-after", "connfail"], noreply=0, timeouts=T)),
    ("negotiation", dict(neg_faults=.4, faults=.001, noreply=0, timeouts=T)),
    ("cut", dict(cut=1, noreply=0, timeouts=T)),
    ("hostile", dict(end=["hostile"], noreply=0, timeouts=T)),
    ("conditions", dict(conds=.7, noreply=0)),
    ("evaluation", dict(evaluation=.5, noreply=0)),
    ("modifications", dict(verdicts=["calm"], mods=1, children=(2, 3), noreply=0)),
    ("rogue", dict(rogue=1, noreply=0, timeouts=T)),
]


def heap(c):
    rounds = c.n(1, 6)
    jobs = [("C13/%d/heap/%s/%d" % (c.seed, l, i), scenario.profile(label=l, **kw), 6 if l == "cut" else c.n(24, 40))
            for i in range(rounds) for l, kw in GROW]
    ljobs = [("C13/%d/leak/%s/%d" % (c.seed, l, i), scenario.profile(label=l, **kw), 20)
             for i in range(c.n(1, 3)) for l, kw in (GROW if c.thorough else GROW[:6])]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(12, maxtasksperchild=2) as pool:
        a = pool.imap_unordered(batch_growth, jobs)
        b = pool.imap_unordered(leak_round, ljobs)
        for r in a:
            if "error" in r:
                c.violation("harness", r["error"])
                continue
            d = [y - x for x, y in zip(r["sizes"], r["sizes"][1:])]
            c.case(("heap", r["seed"]), "heap growth per batch of %d sessions (%s): %s" % (r["n"], r["label"], d))
            c.count("heap_sessions", r["sessions"])
            for k, t in r["diag"]:
                c.violation(k, "heap round %s: %s" % (r["seed"], t), r)
            if len(d) < 7:
                c.violation("died", "milter-manager died in heap round %s" % r["seed"], r)
                continue
            # caches and tables fill up in the first batches and grow in jumps; what is lost by sessions is lost by every batch
            low = min(d[3:])
            if low >= 16:
                c.violation("heap-growth-" + r["label"], "%d sessions more cost %s bytes that are never given back (%s, round %s)" % (
                    r["n"], d, r["label"], r["seed"]), r)
            c.extra["largest_growth_in_every_batch"] = max(c.extra.get("largest_growth_in_every_batch", 0), low)
            c.extra.setdefault("heap_growth", {})[r["label"]] = d
        for r in b:
            if "error" in r:
                c.violation("harness", r["error"])
                continue
            c.case(("leak", r["seed"]))
            c.count("leaksanitizer_sessions", r["sessions"])
            c.count("leaksanitizer_reports_of_interpreter", r["reported"] - len(r["leaks"]))
            for l in r["leaks"]:
                fr = re.findall(r"#\d+ \S+ in (\S+) /\S*milter/([\w-]+\.c|\S+\.c)", l)
                key = "leak:" + ">".join(x[0] for x in fr[:3])
                c.violation(key, "lost memory in leak round %s: %s" % (r["seed"], l[:2500]))


def run():
    play("C13", RULE, KINDS, [
        ("ends", dict(end=["quit", "close", "partial"], stop=.3, abort_after=.2), 8, 160, 20),
        ("faults", faulty(faults=.04, end=["quit", "close", "partial"]), 4, 60, 12),
        ("negotiation", faulty(neg_faults=.4, faults=.01), 4, 60, 12),
        ("cut", faulty(cut=.5, end=["quit", "close", "hostile"]), 5, 80, 14),
        ("spool", dict(spool=.6, end=["quit", "close", "partial"], stop=.3, messages=(1, 2)), 3, 30, 6),
        ("replaced", dict(verdicts=["calm"], mods=1, mod_kinds=["body", "add"], bigrepl=.5, end=["quit", "close"], messages=(1, 2), abort_after=.2), 3, 30, 6),
        ("spool faults", faulty(spool=.5, faults=.03, messages=(1, 2), stop=.2), 2, 20, 5),
    ], after=heap)


main(run)
